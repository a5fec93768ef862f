//! Conformance agent: executes operations, given as JSON lines, on the library
//! under test.  Every request names the thread that executes it.
mod clock;
mod types;

use clock::{Action, Fault, ARMED, CALLS, COUNTS, FAULTS, GATE, GATE_CV, OFFSET_NS};
use ipmb::{Label, LabelOp, MemoryRegion, MemoryRegistry, Message, Object, Options, Selector};
use serde_json::{json, Map, Value};
use std::{
    alloc::{GlobalAlloc, Layout, System},
    collections::HashMap,
    io::{BufRead, Write},
    panic,
    sync::{
        atomic::{AtomicI64, AtomicU64, Ordering, Ordering::SeqCst},
        mpsc, Arc, Mutex,
    },
    time::{Duration, Instant},
};
use types::*;

#[derive(Default)]
struct State {
    tx: HashMap<String, Arc<Tx>>,
    rx: HashMap<String, Arc<Mutex<Box<dyn Rx>>>>,
    objs: HashMap<String, Object>,
    regs: HashMap<String, MemoryRegion>,
    registries: HashMap<String, Arc<Mutex<Reg>>>,
    fired: Vec<Value>,
    tids: HashMap<String, (i32, libc::pthread_t)>,
}

struct Reg(MemoryRegistry);
unsafe impl Send for Reg {}

static PANICS: AtomicU64 = AtomicU64::new(0);
type Shared = Arc<Mutex<State>>;

fn s<'a>(v: &'a Value, k: &str) -> &'a str {
    v[k].as_str().unwrap_or_else(|| panic!("harness: {k} of {v}"))
}
fn n(v: &Value, k: &str, d: u64) -> u64 {
    v[k].as_u64().unwrap_or(d)
}
fn dur(v: &Value, ms: &str, us: &str) -> Option<Duration> {
    if v[ms].as_str() == Some("max") {
        return Some(Duration::MAX);
    }
    if let Some(u) = v[us].as_u64() {
        return Some(Duration::from_micros(u));
    }
    v[ms].as_u64().map(Duration::from_millis)
}

/// ["t"] ["f"] ["l", a] ["n", x] ["a", x, y] ["o", x, y]
fn label_op(v: &Value) -> LabelOp {
    match v[0].as_str().unwrap() {
        "t" => LabelOp::True,
        "f" => LabelOp::False,
        "l" => LabelOp::from(v[1].as_str().unwrap()),
        "n" => !label_op(&v[1]),
        "a" => label_op(&v[1]).and(label_op(&v[2])),
        "o" => label_op(&v[1]).or(label_op(&v[2])),
        x => panic!("harness: label op {x}"),
    }
}

fn label(v: &Value) -> Label {
    let mut l = Label::default();
    for a in v.as_array().unwrap() {
        l.insert(a.as_str().unwrap());
    }
    l
}

fn selector(v: &Value) -> Selector {
    let mut sel = if s(v, "mode") == "m" {
        Selector::multicast(label_op(&v["sel"]))
    } else {
        Selector::unicast(label_op(&v["sel"]))
    };
    if let Some(t) = dur(v, "ttl", "ttl_us") {
        sel.ttl = t;
    }
    sel
}

pub fn inode(fd: i32) -> Value {
    unsafe {
        let mut st: libc::stat = std::mem::zeroed();
        if libc::fstat(fd, &mut st) == -1 {
            return Value::Null;
        }
        json!(format!("{}:{}", st.st_dev, st.st_ino))
    }
}

/// Live allocations: blocks and bytes
struct Heap(AtomicI64, AtomicI64);
static HEAP: Heap = Heap(AtomicI64::new(0), AtomicI64::new(0));
struct Counting;
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        HEAP.0.fetch_add(1, Ordering::Relaxed);
        HEAP.1.fetch_add(l.size() as i64, Ordering::Relaxed);
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        HEAP.0.fetch_sub(1, Ordering::Relaxed);
        HEAP.1.fetch_sub(l.size() as i64, Ordering::Relaxed);
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        HEAP.1.fetch_add(n as i64 - l.size() as i64, Ordering::Relaxed);
        System.realloc(p, l, n)
    }
}
#[global_allocator]
static ALLOC: Counting = Counting;

fn new_object(kind: &str) -> Object {
    unsafe {
        let fd = match kind {
            "memfd" => libc::memfd_create(c"obj".as_ptr(), libc::MFD_CLOEXEC),
            "eventfd" => libc::eventfd(0, libc::EFD_CLOEXEC),
            "sock" => libc::socket(libc::AF_UNIX, libc::SOCK_STREAM | libc::SOCK_CLOEXEC, 0),
            // the write end of a named pipe
            k if k.starts_with('/') => {
                let path = std::ffi::CString::new(k).unwrap();
                libc::open(path.as_ptr(), libc::O_WRONLY | libc::O_NONBLOCK | libc::O_CLOEXEC)
            }
            k => panic!("harness: object kind {k}"),
        };
        assert_ne!(fd, -1, "harness: object");
        Object::from_raw(fd)
    }
}

fn build(st: &Shared, v: &Value, id: u64, len: usize) -> Message<SendBox> {
    let mut msg = Message::new(selector(v), payload(v["ty"].as_str().unwrap_or("A"), id, len));
    let mut g = st.lock().unwrap();
    if let Some(objs) = v["objs"].as_array() {
        for o in objs {
            // "=x" attaches a duplicate of x, otherwise x itself
            let name = o.as_str().unwrap();
            let o = match name.strip_prefix('=') {
                Some(name) => g.objs[name].clone().unwrap(),
                None => g.objs.remove(name).expect("harness: object"),
            };
            msg.objects.push(o);
        }
    }
    if let Some(regs) = v["regs"].as_array() {
        for r in regs {
            let name = r.as_str().unwrap();
            let r = match name.strip_prefix('=') {
                Some(name) => g.regs[name].clone().unwrap(),
                None => g.regs.remove(name).expect("harness: region"),
            };
            msg.memory_regions.push(r);
        }
    }
    msg
}

/// What was received, as JSON; attachments are kept under names with prefix `keep`
/// Identity of a region: its file, or (AGENT_MARKS, as the C interface shows no file) the number in its last bytes
fn region_id(r: &mut MemoryRegion, new: bool) -> Value {
    static SERIAL: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(1);
    if std::env::var_os("AGENT_MARKS").is_none() {
        return inode(r.object().as_raw());
    }
    let n = r.buffer_size();
    if n < 8 {
        return json!("short");
    }
    let b = r.map(n as usize - 8..).unwrap();
    if new {
        let x = (std::process::id() as u64) << 20 | SERIAL.fetch_add(1, SeqCst);
        b.copy_from_slice(&x.to_le_bytes());
    }
    json!(format!("R{}", u64::from_le_bytes((&*b).try_into().unwrap())))
}

fn received(st: &Shared, keep: Option<&str>, mut got: Got) -> Value {
    let mut m = Map::new();
    m.insert("ty".into(), json!(got.ty));
    m.insert("id".into(), json!(got.id));
    m.insert("len".into(), json!(got.len));
    m.insert("intact".into(), json!(got.intact));
    let objs: Vec<_> = got.objects.iter().map(|o| inode(o.as_raw())).collect();
    let regs: Vec<_> = got
        .regions
        .iter_mut()
        .map(|r| region_id(r, false))
        .collect();
    let refs: Vec<_> = got.regions.iter().map(|r| r.ref_count()).collect();
    if !objs.is_empty() {
        m.insert("objs".into(), json!(objs));
    }
    if !regs.is_empty() {
        m.insert("regs".into(), json!(regs));
        m.insert("refs".into(), json!(refs));
    }
    if let Some(keep) = keep {
        let mut g = st.lock().unwrap();
        for (i, o) in got.objects.into_iter().enumerate() {
            g.objs.insert(format!("{keep}.o{i}"), o);
        }
        for (i, r) in got.regions.into_iter().enumerate() {
            g.regs.insert(format!("{keep}.r{i}"), r);
        }
    }
    Value::Object(m)
}

fn rx(st: &Shared, v: &Value) -> Arc<Mutex<Box<dyn Rx>>> {
    let g = st.lock().unwrap();
    g.rx.get(s(v, "e")).expect("harness: receiver").clone()
}

fn tx(st: &Shared, v: &Value) -> Arc<Tx> {
    let g = st.lock().unwrap();
    g.tx.get(s(v, "e")).expect("harness: sender").clone()
}

fn fd_list() -> Vec<(i32, String)> {
    let mut out = vec![];
    let dir = std::fs::read_dir("/proc/self/fd").unwrap();
    for e in dir {
        let e = e.unwrap();
        if let Ok(t) = std::fs::read_link(e.path()) {
            let t = t.to_string_lossy().into_owned();
            if t.contains("/proc/") {
                continue;
            }
            out.push((e.file_name().to_string_lossy().parse().unwrap(), t));
        }
    }
    out
}

/// Instants that can be compared between processes
fn now_us() -> u64 {
    unsafe {
        let mut ts: libc::timespec = std::mem::zeroed();
        libc::syscall(libc::SYS_clock_gettime, libc::CLOCK_MONOTONIC as libc::c_long, &mut ts);
        ts.tv_sec as u64 * 1_000_000 + ts.tv_nsec as u64 / 1000
    }
}

fn run(st: &Shared, v: &Value) -> Value {
    match s(v, "op") {
        "ping" => json!({}),
        "join" => {
            let options = Options {
                identifier: s(v, "ident").to_owned(),
                label: label(&v["label"]),
                token: v["token"].as_str().unwrap_or("").to_owned(),
                controller_affinity: v["aff"].as_bool().unwrap_or(true),
            };
            let t0 = Instant::now();
            let r = join(v["types"].as_str().unwrap_or("ABY"), options, dur(v, "timeout", "timeout_us"));
            let us = t0.elapsed().as_micros() as u64;
            match r {
                Ok((t, r)) => {
                    let mut g = st.lock().unwrap();
                    let e = s(v, "e").to_owned();
                    let old = (g.tx.insert(e.clone(), Arc::new(t)), g.rx.insert(e, Arc::new(Mutex::new(r))));
                    drop(g);
                    drop(old);
                    json!({"ok": true, "us": us})
                }
                Err(err) => json!({"err": err, "us": us}),
            }
        }
        "send" => {
            let t = tx(st, v);
            let msg = build(st, v, n(v, "id", 0), n(v, "len", 0) as usize);
            match t.send(msg) {
                Ok(()) => json!({"ok": true}),
                Err(e) => json!({"err": format!("{e:?}")}),
            }
        }
        "burst" => {
            // n messages with ids base, base+1, ...; lens is cycled through
            let t = tx(st, v);
            let (base, cnt) = (n(v, "base", 0), n(v, "n", 1));
            let lens: Vec<u64> = v["lens"]
                .as_array()
                .map(|l| l.iter().map(|x| x.as_u64().unwrap()).collect())
                .unwrap_or_else(|| vec![0]);
            let mut sent = 0;
            for i in 0..cnt {
                let msg = build(st, v, base + i, lens[i as usize % lens.len()] as usize);
                if let Err(e) = t.send(msg) {
                    return json!({"sent": sent, "err": format!("{e:?}")});
                }
                sent += 1;
                if v["gap_us"].is_u64() {
                    std::thread::sleep(Duration::from_micros(n(v, "gap_us", 0)));
                }
            }
            json!({"sent": sent})
        }
        "load" => {
            // messages <<mode, group, len, ttl in ms>> of sender thread s; returns when each was sent
            let t = tx(st, v);
            let sn = n(v, "s", 0);
            let gap = n(v, "gap_us", 0);
            let mut log = vec![];
            let mut err = Value::Null;
            for (i, m) in v["msgs"].as_array().unwrap().iter().enumerate() {
                let op = label_op(&json!(["l", m[1]]));
                let mut sel = if m[0] == "m" { Selector::multicast(op) } else { Selector::unicast(op) };
                sel.ttl = Duration::from_millis(m[3].as_u64().unwrap_or(0));
                let msg = Message::new(sel, payload("A", sn * 100000 + i as u64 + 1, m[2].as_u64().unwrap() as usize));
                let t0 = now_us();
                let r = t.send(msg);
                let t1 = now_us();
                if let Err(e) = r {
                    err = json!(format!("{e:?}"));
                    break;
                }
                log.push(json!([t0, t1]));
                if gap > 0 && (i as u64 * 7919 + sn) % 3 == 0 {
                    std::thread::sleep(Duration::from_micros(gap));
                }
            }
            json!({"log": log, "err": err})
        }
        "recv" => {
            let r = rx(st, v);
            let mut r = r.lock().unwrap();
            let t = dur(v, "timeout", "timeout_us");
            let mut go = || {
                let t0 = Instant::now();
                let got = r.recv(t);
                (got, t0.elapsed().as_micros() as u64)
            };
            let (got, dt) = if v["virt"].as_bool() == Some(true) { clock::with_virtual_clock(go) } else { go() };
            match got {
                Ok(got) => json!({"msg": received(st, v["keep"].as_str(), got), "us": dt}),
                Err(e) => json!({"err": e, "us": dt}),
            }
        }
        "drain" => {
            // receive until nothing came for `idle` ms, `max` messages came or `until` was received
            let r = rx(st, v);
            let mut r = r.lock().unwrap();
            let idle = Duration::from_millis(n(v, "idle", 100));
            let total = v["total"].as_u64().map(|t| Instant::now() + Duration::from_millis(t));
            let max = n(v, "max", u64::MAX);
            let mut out = vec![];
            let mut end = "max";
            let gap = n(v, "gap_us", 0);
            let mut all: std::collections::HashSet<u64> = v["until_all"].as_array()
                .map(|l| l.iter().map(|x| x.as_u64().unwrap()).collect()).unwrap_or_default();
            while (out.len() as u64) < max {
                let mut t = idle;
                if let Some(e) = total {
                    t = t.min(e.saturating_duration_since(Instant::now()));
                }
                match r.recv(Some(t)) {
                    Ok(got) => {
                        let id = got.id;
                        let x = if v["brief"].as_bool().unwrap_or(false) {
                            json!([got.id, got.len, got.intact, now_us()])
                        } else {
                            received(st, v["keep"].as_str(), got)
                        };
                        out.push(x);
                        if v["until"].as_u64() == Some(id) {
                            end = "until";
                            break;
                        }
                        if all.remove(&id) && all.is_empty() {
                            end = "until";
                            break;
                        }
                        if gap > 0 {
                            std::thread::sleep(Duration::from_micros(gap));
                        }
                    }
                    Err(e) if e == "Timeout" => {
                        end = "idle";
                        break;
                    }
                    Err(e) => {
                        out.push(json!({ "err": e }));
                        if !e.starts_with("Decode") {
                            end = "err";
                            break;
                        }
                    }
                }
            }
            json!({"got": out, "end": end})
        }
        "dropr" => {
            // while other threads of the endpoint send to nobody
            let stop = Arc::new(std::sync::atomic::AtomicBool::new(false));
            let noise: Vec<_> = (0..n(v, "noise", 0))
                .map(|k| {
                    let (t, stop) = (tx(st, v), stop.clone());
                    std::thread::spawn(move || {
                        let mut sent = 0;
                        while !stop.load(SeqCst) && sent < 5000 {
                            let op = label_op(&json!(["l", "~n"]));
                            let sel = if k == 1 { Selector::multicast(op) } else { Selector::unicast(op) };
                            if let Err(e) = t.send(Message::new(sel, payload("C", 900000, 0))) {
                                return Some(format!("{e:?}"));
                            }
                            sent += 1;
                        }
                        None
                    })
                })
                .collect();
            if !noise.is_empty() {
                std::thread::sleep(Duration::from_micros(2000));
            }
            let old = st.lock().unwrap().rx.remove(s(v, "e"));
            let old = old.map(drop);
            stop.store(true, SeqCst);
            for t in noise {
                if let Some(e) = t.join().unwrap() {
                    return json!({ "err": e });
                }
            }
            json!({"ok": old.is_some()})
        }
        "drops" => {
            let old = st.lock().unwrap().tx.remove(s(v, "e"));
            json!({"ok": old.is_some()})
        }
        "clones" => {
            let t = tx(st, v);
            let c = Arc::new(t.as_ref().clone());
            st.lock().unwrap().tx.insert(s(v, "as").to_owned(), c);
            json!({})
        }
        "adv" => {
            OFFSET_NS.fetch_add((n(v, "ms", 0) * 1_000_000) as i64, SeqCst);
            json!({})
        }
        // objects and regions
        "onew" => {
            let o = new_object(s(v, "kind"));
            let i = inode(o.as_raw());
            st.lock().unwrap().objs.insert(s(v, "name").to_owned(), o);
            json!({ "ino": i })
        }
        "oclone" => {
            let mut g = st.lock().unwrap();
            let o = g.objs[s(v, "name")].clone().unwrap();
            g.objs.insert(s(v, "as").to_owned(), o);
            json!({})
        }
        "owrite" => {
            let g = st.lock().unwrap();
            let b = [n(v, "v", 0) as u8];
            let r = unsafe { libc::pwrite(g.objs[s(v, "name")].as_raw(), b.as_ptr() as _, 1, 0) };
            json!({"ok": r == 1})
        }
        "oread" => {
            let g = st.lock().unwrap();
            let mut b = [0u8];
            let r = unsafe { libc::pread(g.objs[s(v, "name")].as_raw(), b.as_mut_ptr() as _, 1, 0) };
            json!({"v": if r == 1 { b[0] as i64 } else if r == 0 { 0 } else { -1 }})
        }
        // an object that refers to a region, which is no reference to it
        "robj" => {
            let mut g = st.lock().unwrap();
            let o = g.regs[s(v, "name")].object().clone().unwrap();
            g.objs.insert(s(v, "as").to_owned(), o);
            json!({})
        }
        "rpeek" => {
            let g = st.lock().unwrap();
            let refs: Vec<_> = v["names"].as_array().unwrap().iter().map(|x| {
                let o = g.objs[x.as_str().unwrap()].clone().unwrap();
                MemoryRegion::from_object(o).ref_count() as i64 - 1
            }).collect();
            json!({"refs": refs})
        }
        "rename" => {
            let mut g = st.lock().unwrap();
            for p in v["pairs"].as_array().unwrap() {
                let (a, b) = (p[0].as_str().unwrap(), p[1].as_str().unwrap().to_owned());
                if let Some(o) = g.objs.remove(a) {
                    g.objs.insert(b, o);
                } else if let Some(r) = g.regs.remove(a) {
                    g.regs.insert(b, r);
                }
            }
            json!({})
        }
        "forget" => {
            let mut g = st.lock().unwrap();
            let p = s(v, "prefix");
            g.objs.retain(|k, _| !k.starts_with(p));
            g.regs.retain(|k, _| !k.starts_with(p));
            json!({})
        }
        "odrop" => {
            let o = st.lock().unwrap().objs.remove(s(v, "name"));
            json!({"ok": o.is_some()})
        }
        "oino" => json!({"ino": inode(st.lock().unwrap().objs[s(v, "name")].as_raw())}),
        "rnew" => match MemoryRegion::new(n(v, "size", 0) as usize) {
            Some(mut r) => {
                let i = region_id(&mut r, true);
                let size = r.buffer_size();
                st.lock().unwrap().regs.insert(s(v, "name").to_owned(), r);
                json!({"ino": i, "size": size})
            }
            None => json!({"none": true}),
        },
        "rclone" => {
            let mut g = st.lock().unwrap();
            let r = g.regs[s(v, "name")].clone().unwrap();
            g.regs.insert(s(v, "as").to_owned(), r);
            json!({})
        }
        "rfrom" => {
            // another handle, opened from a duplicate of the object
            let mut g = st.lock().unwrap();
            let o = g.regs[s(v, "name")].object().clone().unwrap();
            g.regs.insert(s(v, "as").to_owned(), MemoryRegion::from_object(o));
            json!({})
        }
        "rdrop" => {
            let r = st.lock().unwrap().regs.remove(s(v, "name"));
            json!({"ok": r.is_some()})
        }
        "rref" => {
            let g = st.lock().unwrap();
            let r = &g.regs[s(v, "name")];
            json!({"ref": r.ref_count(), "ino": inode(r.object().as_raw()), "size": r.buffer_size()})
        }
        "rspin" => {
            let mut r = {
                let g = st.lock().unwrap();
                g.regs[s(v, "name")].clone().unwrap()
            };
            for i in 0..n(v, "n", 1) {
                let c = if i % 2 == 0 {
                    r.clone().unwrap()
                } else {
                    MemoryRegion::from_object(r.object().clone().unwrap())
                };
                r = c;
            }
            json!({})
        }
        "rmap" => {
            // lo/hi absent: unbounded; hi_incl: inclusive upper bound; lo_excl: exclusive lower bound
            use std::ops::Bound::*;
            let mut g = st.lock().unwrap();
            let r = g.regs.get_mut(s(v, "name")).expect("harness: region");
            let lo = match (v["lo"].as_u64(), v["lo_excl"].as_u64()) {
                (Some(x), _) => Included(x as usize),
                (_, Some(x)) => Excluded(x as usize),
                _ => Unbounded,
            };
            let hi = match (v["hi"].as_u64(), v["hi_incl"].as_u64()) {
                (Some(x), _) => Excluded(x as usize),
                (_, Some(x)) => Included(x as usize),
                _ => Unbounded,
            };
            match r.map((lo, hi)) {
                Ok(buf) => {
                    let mut out = json!({"len": buf.len()});
                    if let Some(w) = v["write"].as_array() {
                        // [[offset, byte], ...]
                        for p in w {
                            buf[p[0].as_u64().unwrap() as usize] = p[1].as_u64().unwrap() as u8;
                        }
                    }
                    if let Some(at) = v["read"].as_array() {
                        let bytes: Vec<_> = at.iter().map(|i| buf[i.as_u64().unwrap() as usize]).collect();
                        out["bytes"] = json!(bytes);
                    }
                    if let Some(f) = v["fill"].as_u64() {
                        buf.fill(f as u8);
                    }
                    if v["sum"].as_bool().unwrap_or(false) {
                        let nz: Vec<_> = buf.iter().enumerate().filter(|(_, b)| **b != 0).take(64).map(|(i, b)| json!([i, b])).collect();
                        out["nonzero"] = json!(nz);
                    }
                    out
                }
                Err(e) => json!({"err": format!("{e:?}").split('(').next()}),
            }
        }
        // registry
        "gnew" => {
            st.lock().unwrap().registries.insert(s(v, "g").to_owned(), Arc::new(Mutex::new(Reg(MemoryRegistry::default()))));
            json!({})
        }
        "galloc" => {
            let reg = st.lock().unwrap().registries[s(v, "g")].clone();
            let mut reg = reg.lock().unwrap();
            let size = n(v, "size", 0) as usize;
            let tag = v["tag"].as_str();
            let r = clock::with_virtual_clock(|| {
                if v["cb"].is_null() {
                    reg.0.alloc(size, tag)
                } else {
                    let (st, cb) = (st.clone(), v["cb"].clone());
                    reg.0.alloc_with_free(size, tag, move || st.lock().unwrap().fired.push(cb))
                }
            });
            match r {
                Some(r) => {
                    let i = inode(r.object().as_raw());
                    let size = r.buffer_size();
                    let rc = r.ref_count();
                    st.lock().unwrap().regs.insert(s(v, "name").to_owned(), r);
                    json!({"ino": i, "size": size, "ref": rc})
                }
                None => json!({"none": true}),
            }
        }
        "gmaintain" => {
            let reg = st.lock().unwrap().registries[s(v, "g")].clone();
            let mut reg = reg.lock().unwrap();
            clock::with_virtual_clock(|| reg.0.maintain());
            json!({})
        }
        "gdrop" => {
            let reg = st.lock().unwrap().registries.remove(s(v, "g"));
            json!({"ok": reg.is_some()})
        }
        // labels
        "validate" => {
            let cases = v["cases"].as_array().unwrap();
            let r: Vec<_> = cases.iter().map(|c| label_op(&c[0]).validate(&label(&c[1]))).collect();
            json!({ "r": r })
        }
        "labeledit" => {
            let mut l = Label::default();
            let mut out = vec![];
            for e in v["edits"].as_array().unwrap() {
                let a = e[1].as_str().unwrap();
                if e[0] == "ins" {
                    l.insert(a);
                } else {
                    l.remove(a);
                }
                let all: Vec<_> = v["probe"].as_array().unwrap().iter()
                    .map(|p| l.all(p.as_array().unwrap().iter().map(|x| x.as_str().unwrap()))).collect();
                out.push(json!([l.iter().collect::<Vec<_>>(), all]));
            }
            json!({ "r": out })
        }
        // process
        "stats" => {
            let c: Map<_, _> = CALLS.iter().enumerate()
                .map(|(i, k)| (k.to_string(), json!([COUNTS[i].load(SeqCst), COUNTS[i + 16].load(SeqCst)]))).collect();
            json!({"calls": c, "gate": GATE.lock().unwrap().1})
        }
        "fds" => {
            let l = fd_list();
            // those a program started now would inherit
            let kept: Vec<_> = l.iter().map(|x| x.0).filter(|fd| *fd > 2 && unsafe { libc::fcntl(*fd as i32, libc::F_GETFD) } & libc::FD_CLOEXEC == 0).collect();
            json!({"n": l.len(), "list": l, "inherit": kept, "threads": std::fs::read_dir("/proc/self/task").unwrap().count(),
                   "maps": std::fs::read_to_string("/proc/self/maps").unwrap().lines().filter(|l| l.contains("memfd:")).count()})
        }
        "rest" => {
            // what the process does within the next `ms` ms: system calls, processor time in us
            let look = || {
                let c: u64 = (0..32).map(|i| COUNTS[i].load(SeqCst)).sum();
                let mut ts: libc::timespec = unsafe { std::mem::zeroed() };
                unsafe { libc::syscall(libc::SYS_clock_gettime, libc::CLOCK_PROCESS_CPUTIME_ID as libc::c_long, &mut ts) };
                (c, ts.tv_sec as u64 * 1_000_000 + ts.tv_nsec as u64 / 1000, now_us())
            };
            let a = look();
            let ts = libc::timespec { tv_sec: n(v, "ms", 40) as i64 / 1000, tv_nsec: n(v, "ms", 40) as i64 % 1000 * 1_000_000 };
            unsafe { libc::syscall(libc::SYS_nanosleep, &ts, std::ptr::null_mut::<libc::timespec>()) };
            let b = look();
            json!({"calls": b.0 - a.0, "cpu": b.1 - a.1, "us": b.2 - a.2})
        }
        "heap" => json!({"blocks": HEAP.0.load(Ordering::SeqCst), "bytes": HEAP.1.load(Ordering::SeqCst)}),
        "fault" => {
            let f = Fault {
                call: v["call"].as_str().map(|c| CALLS.iter().position(|x| *x == c).unwrap()),
                who: match v["who"].as_str() { Some("lib") => 0, Some("harness") => 1, _ => 2 },
                nth: n(v, "nth", 1),
                seen: 0,
                after: v["after"].as_bool().unwrap_or(false),
                action: match s(v, "action") {
                    "kill" => Action::Kill,
                    "errno" => Action::Errno(n(v, "errno", 4) as i32),
                    "delay" => Action::Delay(n(v, "us", 1000)),
                    "gate" => Action::Gate,
                    x => panic!("harness: action {x}"),
                },
                repeat: v["repeat"].as_bool().unwrap_or(false),
            };
            if f.action == Action::Gate {
                GATE.lock().unwrap().0 = false;
            }
            FAULTS.lock().unwrap().push(f);
            ARMED.store(true, SeqCst);
            json!({})
        }
        "step" => {
            // the calls that need a permit from now on
            let mut g = clock::STEP.lock().unwrap();
            g.calls = v["calls"].as_array().unwrap().iter()
                .map(|c| 1 << CALLS.iter().position(|x| Some(*x) == c.as_str()).unwrap()).sum();
            g.permits = 0;
            clock::STEPPING.store(g.calls != 0, SeqCst);
            clock::STEP_CV.notify_all();
            json!({})
        }
        "permit" => {
            clock::STEP.lock().unwrap().permits += 1;
            clock::STEP_CV.notify_all();
            json!({})
        }
        "where" => {
            // the call a thread is stopped at, as soon as it is
            let end = Instant::now() + Duration::from_millis(n(v, "ms", 1000));
            let mut g = clock::STEP.lock().unwrap();
            while (g.at.is_none() || g.permits > 0) && Instant::now() < end {
                g = clock::STEP_CV.wait_timeout(g, Duration::from_millis(2)).unwrap().0;
            }
            json!({"at": g.at.map(|i| CALLS[i])})
        }
        "tstep" => {
            // from now on these threads need a permit for each of these calls
            let calls: u32 = v["calls"].as_array().unwrap().iter()
                .map(|c| {
                    let c = c.as_str().unwrap();
                    1 << (CALLS.iter().position(|x| *x == c.trim_end_matches('+')).unwrap() + if c.ends_with('+') { 16 } else { 0 })
                }).sum();
            let mut g = clock::TSTEP.lock().unwrap();
            let m = g.get_or_insert_with(Default::default);
            for t in v["threads"].as_array().unwrap() {
                m.insert(t.as_str().unwrap().to_owned(), clock::ThreadStep { calls, permits: 0, at: None });
            }
            clock::TSTEPPING.store(true, SeqCst);
            clock::STEP_CV2.notify_all();
            json!({})
        }
        "tpermit" => {
            let mut g = clock::TSTEP.lock().unwrap();
            if let Some(t) = g.as_mut().and_then(|m| m.get_mut(s(v, "thread"))) {
                t.permits += 1;
                t.at = None;
            }
            clock::STEP_CV2.notify_all();
            json!({})
        }
        "twhere" => {
            // the calls these threads are stopped at, once one of each group is or the time is over
            let end = Instant::now() + Duration::from_millis(n(v, "ms", 1000));
            let groups: Vec<Vec<&str>> = v["groups"].as_array().unwrap().iter()
                .map(|g| g.as_array().unwrap().iter().map(|t| t.as_str().unwrap()).collect()).collect();
            let mut g = clock::TSTEP.lock().unwrap();
            loop {
                let m = g.as_ref().unwrap();
                if groups.iter().all(|ts| ts.iter().any(|t| m.get(*t).map_or(false, |t| t.at.is_some()))) || Instant::now() >= end {
                    break;
                }
                g = clock::STEP_CV2.wait_timeout(g, Duration::from_millis(20)).unwrap().0;
            }
            let m = g.as_ref().unwrap();
            let at: serde_json::Map<String, Value> = groups.iter().flatten()
                .map(|t| (t.to_string(), json!(m.get(*t).and_then(|t| t.at).map(|i| CALLS[i])))).collect();
            json!({ "at": at })
        }
        "unfault" => {
            ARMED.store(false, SeqCst);
            FAULTS.lock().unwrap().clear();
            GATE.lock().unwrap().0 = true;
            GATE_CV.notify_all();
            json!({})
        }
        "opengate" => {
            GATE.lock().unwrap().0 = true;
            GATE_CV.notify_all();
            json!({})
        }
        "spawnchild" => {
            // a child process that inherits whatever is inheritable and stays
            let c = std::process::Command::new("/bin/sleep").arg(v["secs"].as_str().unwrap_or("60"))
                .stdin(std::process::Stdio::null()).stdout(std::process::Stdio::null()).stderr(std::process::Stdio::null())
                .spawn();
            match c {
                Ok(c) => json!({"pid": c.id()}),
                Err(e) => json!({"err": e.to_string()}),
            }
        }
        "signal" => {
            // send n signals to a thread of this agent, `gap_us` apart
            let t = st.lock().unwrap().tids.get(s(v, "thread")).copied();
            let Some((_, p)) = t else { return json!({"err": "no thread"}) };
            for _ in 0..n(v, "n", 1) {
                unsafe { libc::pthread_kill(p, libc::SIGUSR1) };
                std::thread::sleep(Duration::from_micros(n(v, "gap_us", 1000)));
            }
            json!({})
        }
        "signalall" => {
            // signals to every thread of the process, including those of the library
            for _ in 0..n(v, "n", 1) {
                for e in std::fs::read_dir("/proc/self/task").unwrap() {
                    let tid: i32 = e.unwrap().file_name().to_string_lossy().parse().unwrap();
                    unsafe { libc::syscall(libc::SYS_tgkill, libc::getpid(), tid, libc::SIGUSR1) };
                }
                std::thread::sleep(Duration::from_micros(n(v, "gap_us", 1000)));
            }
            json!({})
        }
        "sleep" => {
            std::thread::sleep(Duration::from_millis(n(v, "ms", 0)));
            json!({})
        }
        "sums" => {
            // what messages of type R contain
            let base = n(v, "base", 0);
            let r: Vec<_> = v["lens"].as_array().unwrap().iter().enumerate()
                .map(|(i, l)| json!([sum(&content(base + i as u64, l.as_u64().unwrap() as usize)), l])).collect();
            json!({ "sums": r, "frame": clock::LAST_FRAME.load(SeqCst) })
        }
        "warp" => {
            clock::WARP.store(v["on"].as_bool().unwrap(), SeqCst);
            json!({})
        }
        "version" => {
            let v = ipmb::version();
            json!({"version": [v.major(), v.minor(), v.patch()], "pre": ipmb::version_pre()})
        },
        x => panic!("harness: op {x}"),
    }
}

extern "C" fn noop(_: i32) {}

fn main() {
    clock::harness_thread();
    unsafe {
        // Like a C program; the Rust runtime ignores SIGPIPE
        if std::env::var("AGENT_SIGPIPE").is_ok() {
            libc::signal(libc::SIGPIPE, libc::SIG_DFL);
        }
        let mut sa: libc::sigaction = std::mem::zeroed();
        sa.sa_sigaction = noop as *const () as usize;
        libc::sigaction(libc::SIGUSR1, &sa, std::ptr::null_mut());
        libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
    }
    if let Some(d) = std::env::var("AGENT_SLEEP_DIV").ok().and_then(|d| d.parse().ok()) {
        clock::SLEEP_DIV.store(d, SeqCst);
    }
    let hook = panic::take_hook();
    panic::set_hook(Box::new(move |i| {
        PANICS.fetch_add(1, SeqCst);
        hook(i);
    }));

    let st: Shared = Default::default();
    let mut threads: HashMap<String, mpsc::Sender<Value>> = HashMap::new();
    for line in std::io::stdin().lock().lines() {
        let Ok(line) = line else { break };
        if line.trim().is_empty() {
            continue;
        }
        let v: Value = serde_json::from_str(&line).expect("harness: request");
        let t = v["t"].as_str().unwrap_or("main").to_owned();
        let ch = threads.entry(t.clone()).or_insert_with(|| {
            let (tx, rx) = mpsc::channel::<Value>();
            let st = st.clone();
            std::thread::spawn(move || {
                clock::harness_thread();
                clock::NAME.with(|n| *n.borrow_mut() = t.clone());
                unsafe {
                    st.lock().unwrap().tids.insert(t, (libc::gettid(), libc::pthread_self()));
                }
                for v in rx {
                    let t0 = now_us();
                    let r = panic::catch_unwind(panic::AssertUnwindSafe(|| run(&st, &v)));
                    let mut r = r.unwrap_or_else(|e| {
                        let m = e.downcast_ref::<String>().cloned()
                            .or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string()))
                            .unwrap_or_default();
                        json!({ "panic": m })
                    });
                    r["rid"] = v["rid"].clone();
                    r["t0"] = json!(t0);
                    r["t1"] = json!(now_us());
                    r["panics"] = json!(PANICS.load(SeqCst));
                    let fired = match st.lock() {
                        Ok(mut g) => std::mem::take(&mut g.fired),
                        Err(_) => vec![],
                    };
                    if !fired.is_empty() {
                        r["fired"] = json!(fired);
                    }
                    let mut line = serde_json::to_string(&r).unwrap();
                    line.push('\n');
                    let mut out = std::io::stdout().lock();
                    let _ = out.write_all(line.as_bytes());
                    let _ = out.flush();
                }
            });
            tx
        });
        let _ = ch.send(v);
    }
    unsafe { libc::_exit(0) }
}
