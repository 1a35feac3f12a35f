//! L01: licenses.
use ed25519_dalek::{Signer, SigningKey};
use licensing::{LicenseLevel, vp_verify_license};
use serde_json::{Map, Value};
use std::time::{Duration, SystemTime, UNIX_EPOCH};
use vpcore::*;

static PROPS: &[PropDef] = &[PropDef {
    id: "L01",
    rule: "Licenses with any names, made by the program or signed by the check itself, verified at times around their limits with up to five keys, then with one field, the signature or the JSON changed; non-trivial: every case, counted by its choices.",
    quick: 20_000,
    thorough: 2_000_000,
    f: l01,
    text: Some(l01_text),
    ..BASE
}];

fn main() {
    vpcore::main_with(PROPS);
}

const CH: &[char] = &['a', 'B', 'é', '1', '9', '0', ' ', '@', '.', '"', '\\', '\n', '漢', '🙂', '\u{0}', '{', ':', ',', '-'];

fn name(s: &mut Src) -> String {
    (0..s.n(8)).map(|_| *s.pick(CH)).collect()
}
fn key(s: &mut Src) -> [u8; 32] {
    let mut k = [0; 32];
    for c in k.chunks_mut(8) {
        c.copy_from_slice(&s.u64().to_le_bytes());
    }
    k
}
fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{x:02x}")).collect::<Vec<_>>().join(":")
}
fn public(k: &[u8; 32]) -> [u8; 32] {
    SigningKey::from_bytes(k).verifying_key().to_bytes()
}

#[derive(Clone, Debug, PartialEq)]
struct Lic {
    name: String,
    email: String,
    company: String,
    from: u64,
    until: u64,
    version: u64,
    level: &'static str,
    signature: String,
}

impl Lic {
    /// The text that is signed in all licenses that were ever given out.
    fn message(&self) -> String {
        format!("{}{}{}{}{}{}\"{}\"", self.name, self.email, self.company, self.from, self.until, self.version, self.level)
    }
    fn sign(&mut self, k: &[u8; 32]) {
        let sig = SigningKey::from_bytes(k).sign(self.message().as_bytes());
        self.signature = sig.to_bytes().iter().map(|x| format!("{x:02X}")).collect();
    }
    fn json(&self, s: &mut Src) -> String {
        let mut m = Map::new();
        m.insert("name".into(), self.name.clone().into());
        m.insert("email".into(), self.email.clone().into());
        m.insert("company".into(), self.company.clone().into());
        m.insert("valid_from".into(), self.from.into());
        m.insert("valid_until".into(), self.until.into());
        m.insert("license_version".into(), self.version.into());
        m.insert("level".into(), self.level.into());
        m.insert("signature".into(), self.signature.clone().into());
        let v = Value::Object(m);
        if s.coin() { serde_json::to_string(&v).unwrap() } else { serde_json::to_string_pretty(&v).unwrap() }
    }
}

fn at(t: u64) -> SystemTime {
    UNIX_EPOCH + Duration::from_secs(t)
}

#[derive(Debug, PartialEq, Clone, Copy)]
enum Got {
    Standard,
    NoLicense,
    Invalid,
    Error,
}

fn verify(json: &str, t: SystemTime, keys: &[[u8; 32]]) -> Got {
    match vp_verify_license(json, t, keys) {
        Ok(Some(LicenseLevel::Standard)) => Got::Standard,
        Ok(Some(LicenseLevel::NoLicense)) => Got::NoLicense,
        Ok(None) => Got::Invalid,
        Err(_) => Got::Error,
    }
}

fn from_json(j: &str) -> Option<Lic> {
    let v: Value = serde_json::from_str(j).ok()?;
    let t = |k: &str| v.get(k).and_then(|x| x.as_str()).map(|x| x.to_string());
    let n = |k: &str| v.get(k).and_then(|x| x.as_u64());
    Some(Lic {
        name: t("name")?,
        email: t("email")?,
        company: t("company")?,
        from: n("valid_from")?,
        until: n("valid_until")?,
        version: n("license_version")?,
        level: if t("level")? == "Standard" { "Standard" } else { "NoLicense" },
        signature: t("signature")?,
    })
}

fn l01(s: &mut Src, ctx: &mut Ctx) -> R {
    let k = key(s);
    let (n, e, c) = (name(s), name(s), name(s));
    let lic;
    let text;
    if s.coin() {
        // made by the program
        let days = match s.n(4) {
            0 => 0,
            1 => 366,
            2 => s.n(5000) as u64,
            _ => 1,
        };
        let mut h = hex(&k);
        if s.coin() {
            h = h.to_uppercase();
        }
        // A worker has one thread only.
        unsafe { std::env::set_var("ZUBAN_SIGNING_KEY", &h) };
        let secs = || SystemTime::now().duration_since(UNIX_EPOCH).unwrap().as_secs();
        let before = secs();
        let r = licensing::create_license(n.clone(), e.clone(), c.clone(), days);
        let after = secs();
        unsafe { std::env::remove_var("ZUBAN_SIGNING_KEY") };
        text = match r {
            Ok(x) => x,
            Err(e) => fail!("create", "no license was made: {e}"),
        };
        let Some(l) = from_json(&text) else { fail!("create-json", "the license cannot be read: {text}") };
        ensure!((&l.name, &l.email, &l.company) == (&n, &e, &c), "create-fields", "{n:?} {e:?} {c:?} became {text}");
        ensure!(l.from >= before && l.from <= after, "create-from", "made at {before}, valid from {}", l.from);
        ensure!(l.until == l.from + days * 86400, "create-until", "{days} days, but {text}");
        ensure!(l.level == "Standard", "create-level", "{text}");
        let mut same = l.clone();
        same.sign(&k);
        ensure!(same.signature.eq_ignore_ascii_case(&l.signature), "create-signature", "the signature of {text} should be {}", same.signature);
        lic = l;
        ctx.class("made");
    } else {
        let from = match s.n(3) {
            0 => 1_700_000_000 + s.u64() % 100_000_000,
            1 => s.u64() % 10,
            _ => s.u64() >> (24 + s.n(40)),
        };
        let until = if s.chance(1, 8) { from.saturating_sub(s.n(5) as u64) } else { from + (s.u64() >> (34 + s.n(30))) };
        let mut l = Lic {
            name: n,
            email: e,
            company: c,
            from,
            until,
            version: if s.coin() { 1 } else { s.n(20) as u64 },
            level: if s.chance(1, 6) { "NoLicense" } else { "Standard" },
            signature: String::new(),
        };
        l.sign(&k);
        text = l.json(s);
        lic = l;
        ctx.class("signed");
    }
    ctx.note("license", text.clone());
    // keys, with the right one anywhere
    let mut keys: Vec<[u8; 32]> = (0..s.n(5)).map(|_| public(&key(s))).collect();
    let place = s.n(keys.len() + 1);
    let others = keys.clone();
    keys.insert(place, public(&k));
    // times at and around the limits
    let mut times = vec![lic.from, lic.until, lic.from + 1, lic.until + 1, lic.from.saturating_sub(1), lic.until.saturating_sub(1), lic.from / 2 + lic.until / 2];
    times.push(s.u64() >> 28);
    let ok = if lic.level == "Standard" { Got::Standard } else { Got::NoLicense };
    for t in &times {
        let inside = lic.from <= *t && *t <= lic.until;
        let got = verify(&text, at(*t) + Duration::from_millis(s.n(1000) as u64), &keys);
        let want = if inside { ok } else { Got::Error };
        ensure!(got == want, "time", "valid from {} until {}, at {t}: {got:?} instead of {want:?}", lic.from, lic.until);
    }
    let mid = if lic.from <= lic.until { lic.until } else { lic.from };
    ensure!(verify(&text, at(mid), &others) == Got::Invalid, "other-keys", "valid with {} other keys", others.len());
    // One change
    let mut l = lic.clone();
    let edit = |s: &mut Src, x: &mut String| {
        let c: Vec<char> = x.chars().collect();
        let i = s.n(c.len() + 1);
        let ch = *s.pick(CH);
        let mut y = c.clone();
        match s.n(3) {
            0 => y.insert(i, ch),
            1 if i < y.len() => {
                y.remove(i);
            }
            _ if i < y.len() => y[i] = ch,
            _ => y.push(ch),
        }
        *x = y.into_iter().collect();
    };
    let number = |s: &mut Src, x: &mut u64| match s.n(4) {
        0 => *x = x.wrapping_add(1) >> 1 << 1 | (!*x & 1),
        1 => *x = x.saturating_add(1),
        2 => *x = x.saturating_sub(1),
        _ => *x = s.u64() >> s.n(60),
    };
    let what = s.n(9);
    let mut sig_change = false;
    match what {
        0 => edit(s, &mut l.name),
        1 => edit(s, &mut l.email),
        2 => edit(s, &mut l.company),
        3 => number(s, &mut l.from),
        4 => number(s, &mut l.until),
        5 => number(s, &mut l.version),
        6 => l.level = if l.level == "Standard" { "NoLicense" } else { "Standard" },
        7 => {
            let mut b = l.signature.clone().into_bytes();
            let i = s.n(b.len());
            b[i] = b"0123456789ABCDEFgz"[s.n(18)];
            l.signature = String::from_utf8(b).unwrap();
            if s.chance(1, 5) {
                l.signature.truncate(s.n(128));
            }
            sig_change = true;
        }
        _ => {
            // the same signature in another representation: s + order of the group
            const L: [u8; 32] = [
                0xed, 0xd3, 0xf5, 0x5c, 0x1a, 0x63, 0x12, 0x58, 0xd6, 0x9c, 0xf7, 0xa2, 0xde, 0xf9, 0xde, 0x14, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0x10,
            ];
            let mut b: Vec<u8> = (0..64).map(|i| u8::from_str_radix(&l.signature[2 * i..2 * i + 2], 16).unwrap()).collect();
            let mut carry = 0u16;
            for i in 0..32 {
                let x = b[32 + i] as u16 + L[i] as u16 + carry;
                b[32 + i] = x as u8;
                carry = x >> 8;
            }
            l.signature = b.iter().map(|x| format!("{x:02X}")).collect();
            sig_change = true;
        }
    }
    let changed = if sig_change { !l.signature.eq_ignore_ascii_case(&lic.signature) } else { l != lic };
    // Moving characters between neighbouring fields is a known finding; it takes two changes,
    // except that one field may repeat its neighbour.
    if changed && (sig_change || l.message() != lic.message()) {
        ctx.class(&format!("changed_{what}"));
        let j = l.json(s);
        for t in [lic.from, lic.until, l.from, l.until, mid] {
            let got = verify(&j, at(t.min(1 << 50)), &keys);
            ensure!(got == Got::Invalid || got == Got::Error, "changed", "{j} is accepted as {got:?} with the signature of {text}");
        }
        // nor with the keys of the program
        let f = scratch(&j);
        let r = licensing::verify_license_in_path(&f);
        let _ = std::fs::remove_file(&f);
        ensure!(r.is_err(), "builtin", "{j} is accepted");
    }
    // A key of small order signs nothing
    {
        let mut weak = [0u8; 32];
        weak[0] = 1;
        let mut w = lic.clone();
        w.signature = format!("01{}", "0".repeat(126));
        let j = w.json(s);
        let got = verify(&j, at(mid), &[weak]);
        ensure!(got == Got::Invalid || got == Got::Error, "weak-key", "{j} is accepted as {got:?} with a weak key");
    }
    // JSON that is incomplete or has a field of another type
    {
        let mut v: Value = serde_json::from_str(&text).unwrap();
        let fields = ["name", "email", "company", "valid_from", "valid_until", "license_version", "level", "signature"];
        let f = *s.pick(&fields);
        let o = v.as_object_mut().unwrap();
        match s.n(3) {
            0 => {
                o.remove(f);
            }
            1 => {
                o.insert(f.into(), Value::Bool(true));
            }
            _ => {
                o.insert(f.into(), Value::from(-1));
            }
        }
        let j = v.to_string();
        let got = verify(&j, at(mid), &keys);
        ensure!(got == Got::Error, "json", "{j} gives {got:?}");
        let cut = text.char_indices().nth(s.n(text.chars().count())).map_or(0, |x| x.0);
        let got = verify(&text[..cut], at(mid), &keys);
        ensure!(got == Got::Error, "json", "{} gives {got:?}", &text[..cut]);
    }
    // Keys as text
    {
        let n = if s.coin() { 32 } else { s.n(40) };
        let b: Vec<u8> = (0..n).map(|_| s.u64() as u8 >> s.n(8)).collect();
        let t: Vec<String> = b.iter().map(|x| if s.coin() { format!("{x:x}") } else { format!("{x:02X}") }).collect();
        let t = t.join(":");
        let r = licensing::hex_string_key_to_bytes(t.clone());
        match r {
            Ok(x) => ensure!(n == 32 && x[..] == b[..], "hex", "{t} gives {x:?}"),
            Err(e) => ensure!(n != 32, "hex", "{t} gives {e}"),
        }
        let bad = format!("{t}:{}", ["", "g", "100", "-", "é"][s.n(5)]);
        ensure!(licensing::hex_string_key_to_bytes(bad.clone()).is_err(), "hex-bad", "{bad} is a key");
    }
    ctx.nontrivial(&format!("{:?}", s.rec));
    Ok(())
}

fn scratch(text: &str) -> std::path::PathBuf {
    let f = std::env::temp_dir().join(format!("vplic-{}.json", std::process::id()));
    std::fs::write(&f, text).unwrap();
    f
}

/// Two licenses, one per line, and the private key of the first: the second is signed with the
/// signature of the first.
fn l01_text(text: &str, ctx: &mut Ctx) -> R {
    let k = [7u8; 32];
    let mut it = text.lines();
    let (a, b) = (it.next().unwrap(), it.next().unwrap());
    let mut la = from_json(a).unwrap();
    la.sign(&k);
    let mut lb = from_json(b).unwrap();
    lb.signature = la.signature.clone();
    let mut s = Src::from_choices(vec![]);
    let (ja, jb) = (la.json(&mut s), lb.json(&mut s));
    ctx.note("license", jb.clone());
    ensure!(verify(&ja, at(la.from), &[public(&k)]) == Got::Standard, "text", "{ja} is not valid");
    let got = verify(&jb, at(lb.from.max(la.from)), &[public(&k)]);
    ensure!(got == Got::Invalid || got == Got::Error, "shifted", "{jb} is accepted as {got:?} with the signature of {ja}");
    Ok(())
}
