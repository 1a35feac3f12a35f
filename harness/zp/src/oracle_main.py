def main():
    while True:
        l = sys.stdin.buffer.readline()
        if not l:
            return
        cmd, n = l.decode().split()
        data = sys.stdin.buffer.read(int(n)).decode()
        try:
            r = json.dumps(handle(cmd, data))
        except Exception as e:
            import traceback
            r = 'EXC ' + traceback.format_exc()
        reply(r.encode('utf-8', 'surrogatepass'))
out = sys.stdout
main()
