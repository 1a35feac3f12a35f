a[a[a[a[a[a[a[a[a[a[a[a[a[a[a[a[a[a[a[a[a[a[a[a[a[a[a[a[a[a[a[a[a[a[a[a[a[a[a[a[b:c]:c]:c]:c]:c]:c]:c]:c]:c]:c]:c]:c]:c]:c]:c]:c]:c]:c]:c]:c]:c]:c]:c]:c]:c]:c]:c]:c]:c]:c]:c]:c]:c]:c]:c]:c]:c]:c]:c]:c]
