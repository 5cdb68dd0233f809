//! Symbolic interpreter.
use crate::expr::*;
use crate::ir::*;
use crate::mem::*;
use crate::solver::*;
use std::collections::{BTreeMap, HashMap, HashSet, VecDeque};
use std::rc::Rc;

#[derive(Clone)]
pub struct Frame {
    pub f: Rc<Func>,
    pub fi: u32,
    pub pc: u32,
    pub regs: Vec<Val>,
    pub sp: u64,
    pub ret_d: u32,
    pub ret_n: u32,
    pub after: Option<u32>,
}

#[derive(Clone, Debug)]
pub enum Input {
    Sym(u32, u16), // variable, width
    Fixed(u64, u16),
}

#[derive(Clone, Copy, PartialEq)]
pub enum Ts {
    Ready,
    Futex(u64),
    Joining,
    Done,
}

#[derive(Clone)]
pub struct Thread {
    pub frames: Vec<Frame>,
    pub sp: u64,
    pub ts: Ts,
}

#[derive(Clone)]
pub struct State {
    /// Empty while there is one thread only; else the first is that one.
    pub threads: Vec<Thread>,
    pub cur: usize,
    pub preempt: u64,
    /// Who went on where, for the report.
    pub sched: Vec<(usize, u32)>,
    pub mem: Mem,
    pub frames: Vec<Frame>,
    pub sp: u64,
    pub pc: Vec<E>,
    pub doms: Vec<[u64; 4]>,
    pub taint: Vec<bool>,
    pub model: Vec<u64>,
    pub eqs: HashMap<E, u64, BuildFx>,
    pub inputs: Vec<Input>,
    pub nvars: u32,
    pub out: Vec<Val>,
    pub obs: Vec<(Val, u32)>,
    pub cover: u64,
    pub steps: u64,
    pub forks: u32,
    pub file: Option<Rc<Vec<Val>>>,
    pub fds: Vec<u64>,
    pub cpus: u64,
    /// Keys of thread-specific values, and the values: thread, key, value.
    pub keys: u64,
    pub specific: Vec<(usize, u64, u64)>,
}

#[derive(Clone, Debug)]
pub struct Violation {
    pub kind: String,
    pub msg: String,
    pub input: Vec<u8>,
    pub stack: Vec<String>,
}

#[derive(Clone, Debug)]
pub struct Trace {
    pub input: Vec<u8>,
    pub obs: Vec<u64>,
}

#[derive(Default, Clone)]
pub struct Report {
    pub paths: u64,
    pub infeasible: u64,
    pub steps: u64,
    pub forks: u64,
    pub asserts: u64,
    pub asserts_solver: u64,
    pub violations: Vec<Violation>,
    pub incomplete: Vec<String>,
    pub cover: u64,
    pub traces: Vec<Trace>,
    pub solver: Stats,
    pub dom_decisions: u64,
    pub confirmed: u64,
    pub maxlen: u64,
    pub funcs: HashSet<u32>,
}

pub struct Opts {
    pub max_steps: u64,
    pub deadline: std::time::Instant,
    pub traces_every: u64,
    pub max_traces: usize,
    pub use_dom: bool,
    pub seed: u64,
    pub max_violations: usize,
    pub confirm_every: u64,
}

enum FK {
    Unres,
    Body(Rc<Func>),
    Ext(Ext),
    Panic,
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum Ext {
    Fp(Fp, u8),
    SymFile,
    SymCpus,
    Affinity,
    Read,
    Lseek,
    RustAlloc,
    RustAllocZ,
    RustRealloc,
    RustDealloc,
    Nop,
    Zero,
    MinusOne(u32),
    KeyCreate,
    SetSpecific,
    GetSpecific,
    Malloc,
    Calloc,
    Realloc,
    Free,
    PosixMemalign,
    Memcmp,
    Bcmp,
    Strlen,
    Strerror,
    Write,
    Writev,
    Errno,
    Getrandom,
    Syscall,
    Getenv,
    Abort,
    SymBytes,
    SymU32,
    SymU64,
    SymRange,
    SymThreads,
    SymReps,
    Yield,
    SymAssume,
    SymAssert,
    SymFail,
    SymCover,
    SymObserve,
    SymConc,
    SymIte,
    SymOutLen,
    SymOutTake,
    Open,
    Unknown,
}

enum Stop {
    Dead,             // state ended or was handed to the work list
    Bad(String),      // violation-like event in the code (bad memory, trap)
    Incomplete(String),
}

impl From<BadAddr> for Stop {
    fn from(b: BadAddr) -> Stop {
        Stop::Bad(format!("memory access outside any object at {:#x}", b.0))
    }
}

pub struct Eng {
    pub x: Ctx,
    pub m: Module,
    fk: Vec<FK>,
    pub z: Solver,
    pub work: VecDeque<State>,
    pub rep: Report,
    pub o: Opts,
    pub errno: u64,
    pub pretty: HashMap<u32, String>,
    unknown_ext: BTreeMap<String, u64>,
    pub trace_calls: bool,
    sm: crate::simp::Simp,
}

fn bit(b: &[u64; 4], v: u64) -> bool {
    b[(v >> 6) as usize] >> (v & 63) & 1 == 1
}

impl Eng {
    pub fn new(m: Module, z: Solver, o: Opts) -> Eng {
        let n = m.funcs.len();
        let mut pretty = HashMap::new();
        for (i, f) in m.funcs.iter().enumerate() {
            if let Some((s, _)) = f.body {
                // the comment lines before the definition carry the Rust path
                let t = &m.text[..s];
                let t = t.trim_end_matches('\n');
                let mut best = None;
                for l in t.rsplit('\n').take(3) {
                    if let Some(c) = l.strip_prefix("; ") {
                        if !c.starts_with("Function Attrs") {
                            best = Some(c.to_string());
                        }
                    } else {
                        break;
                    }
                }
                if let Some(b) = best {
                    pretty.insert(i as u32, b);
                }
            }
        }
        Eng {
            x: Ctx::new(),
            m,
            fk: (0..n).map(|_| FK::Unres).collect(),
            z,
            work: VecDeque::new(),
            rep: Report::default(),
            o,
            errno: 0,
            pretty,
            unknown_ext: BTreeMap::new(),
            sm: Default::default(),
            trace_calls: false,
        }
    }

    pub fn initial(&mut self, entry: &str) -> State {
        let top = self.m.gaddr.last().map(|(a, s, _)| a + s).unwrap_or(GBASE) + 4096;
        let mut mem = Mem::new(top);
        for (a, b) in &self.m.ginit {
            mem.write_bytes(*a, b).unwrap();
        }
        self.errno = top - 2048;
        let fi = *self.m.fidx.get(entry).unwrap_or_else(|| {
            eprintln!("no entry function {}", entry);
            std::process::exit(71)
        });
        let f = match self.resolve(fi) {
            FK::Body(f) => f.clone(),
            _ => panic!("entry"),
        };
        let mut st = State {
            threads: vec![],
            cur: 0,
            preempt: 0,
            sched: vec![],
            mem,
            frames: vec![],
            sp: STACK_TOP - 4096,
            pc: vec![],
            doms: vec![],
            taint: vec![],
            model: vec![],
            eqs: Default::default(),
            inputs: vec![],
            nvars: 0,
            out: vec![],
            obs: vec![],
            cover: 0,
            steps: 0,
            forks: 0,
            file: None,
            fds: vec![],
            cpus: 0,
            keys: 0,
            specific: vec![],
        };
        let regs = vec![Val::c(0); f.nregs as usize];
        st.frames.push(Frame { f, fi, pc: 0, regs, sp: st.sp, ret_d: 0, ret_n: 0, after: None });
        st
    }

    fn resolve(&mut self, fi: u32) -> &FK {
        if let FK::Unres = self.fk[fi as usize] {
            let name = self.m.funcs[fi as usize].name.clone();
            let has = self.m.funcs[fi as usize].body.is_some();
            let n = name.as_str();
            let ext = if n.contains("7___rustc") || n.starts_with("__rust_") || n.starts_with("__rdl") || n.starts_with("__rg_") {
                if n.ends_with("___rust_alloc") || n.ends_with("__rdl_alloc") {
                    Some(Ext::RustAlloc)
                } else if n.ends_with("___rust_alloc_zeroed") || n.ends_with("__rdl_alloc_zeroed") {
                    Some(Ext::RustAllocZ)
                } else if n.ends_with("___rust_realloc") || n.ends_with("__rdl_realloc") {
                    Some(Ext::RustRealloc)
                } else if n.ends_with("___rust_dealloc") || n.ends_with("__rdl_dealloc") {
                    Some(Ext::RustDealloc)
                } else if n.contains("no_alloc_shim") {
                    Some(Ext::Nop)
                } else {
                    None
                }
            } else {
                None
            };
            let is_panic = n.contains("4core9panicking")
                || n.contains("rust_begin_unwind")
                || n.contains("3std9panicking11begin_panic")
                || n.contains("rust_panic")
                || (n.contains("3std9panicking") && n.contains("panic_handler"))
                || n.contains("18handle_alloc_error")
                || n.contains("17capacity_overflow");
            let k = if let Some(e) = ext {
                FK::Ext(e)
            } else if is_panic {
                FK::Panic
            } else if n.starts_with("sym_") || !has {
                FK::Ext(match n {
                    "sym_bytes" => Ext::SymBytes,
                    "sym_u32" => Ext::SymU32,
                    "sym_u64" => Ext::SymU64,
                    "sym_range" => Ext::SymRange,
                    "sym_threads" => Ext::SymThreads,
                    "sym_reps" => Ext::SymReps,
                    "sched_yield" => Ext::Yield,
                    "sym_assume" => Ext::SymAssume,
                    "sym_assert" => Ext::SymAssert,
                    "sym_fail" => Ext::SymFail,
                    "sym_cover" => Ext::SymCover,
                    "sym_observe" => Ext::SymObserve,
                    "sym_concrete" => Ext::SymConc,
                    "sym_ite" => Ext::SymIte,
                    "sym_out_len" => Ext::SymOutLen,
                    "sym_out_take" => Ext::SymOutTake,
                    "malloc" => Ext::Malloc,
                    "calloc" => Ext::Calloc,
                    "realloc" => Ext::Realloc,
                    "free" => Ext::Free,
                    "posix_memalign" => Ext::PosixMemalign,
                    "memcmp" => Ext::Memcmp,
                    "bcmp" => Ext::Bcmp,
                    "strlen" => Ext::Strlen,
                    "__xpg_strerror_r" => Ext::Strerror,
                    "write" => Ext::Write,
                    "writev" => Ext::Writev,
                    "__errno_location" => Ext::Errno,
                    "getrandom" => Ext::Getrandom,
                    "syscall" => Ext::Syscall,
                    "getenv" => Ext::Getenv,
                    "abort" | "_exit" | "exit" | "pause" => Ext::Abort,
                    "open64" | "open" => Ext::Open,
                    "pthread_self" | "gettid" | "getpid" => Ext::Zero,
                    "pthread_key_create" => Ext::KeyCreate,
                    "pthread_setspecific" => Ext::SetSpecific,
                    "pthread_getspecific" => Ext::GetSpecific,
                    "__cxa_thread_atexit_impl" | "pthread_key_delete" | "isatty"
                    | "fcntl" | "sigaltstack" | "munmap" | "mprotect" | "close" | "dl_iterate_phdr" | "getauxval" => Ext::Zero,
                    "sysconf" | "readlink" => Ext::MinusOne(64),
                    "stat64" | "fstat64" | "statx" | "ioctl" | "poll" => Ext::MinusOne(32),
                    "sym_cpus" => Ext::SymCpus,
                    "sched_getaffinity" => Ext::Affinity,
                    "sym_file" => Ext::SymFile,
                    "read" => Ext::Read,
                    "lseek64" | "lseek" => Ext::Lseek,
                    _ => match (Fp::named(n), n.strip_suffix('f').and_then(Fp::named)) {
                        (Some(f), _) => Ext::Fp(f, 64),
                        (_, Some(f)) => Ext::Fp(f, 32),
                        _ => Ext::Unknown,
                    },
                })
            } else {
                let f = {
                    let m: *const Module = &self.m;
                    // lowering only needs the module immutably and the expression context
                    unsafe { (*m).lower(fi, &mut self.x) }
                };
                FK::Body(Rc::new(f))
            };
            self.fk[fi as usize] = k;
        }
        &self.fk[fi as usize]
    }

    pub fn fname(&self, fi: u32) -> String {
        self.pretty.get(&fi).cloned().unwrap_or_else(|| self.m.funcs[fi as usize].name.clone())
    }

    // ---- feasibility ---------------------------------------------------

    /// The constraints that matter for `e`, simplified under the byte domains
    /// (which are added as constraints).  `None`: `e` folds to false.
    fn prepare(&mut self, st: &State, e: E) -> Option<Vec<E>> {
        let raw = self.slice(st, e);
        if !self.o.use_dom {
            return Some(raw);
        }
        let mut out = vec![];
        let mut vars: Vec<u32> = vec![];
        for (i, &c) in raw.iter().enumerate() {
            vars.extend_from_slice(self.x.vars(c));
            let one_byte = matches!(self.x.single(c), Some(v) if self.x.var_w[&v] == 8);
            if i > 0 && one_byte {
                continue; // part of the domain
            }
            let s = self.sm.simp(&mut self.x, &st.doms, c);
            match self.x.cv(s) {
                Some(0) => return None,
                Some(_) => {}
                None => out.push(s),
            }
        }
        vars.sort();
        vars.dedup();
        for v in vars {
            if self.x.var_w[&v] == 8 {
                let d = st.doms[(v >> 2) as usize];
                let c = self.sm.dom_expr(&mut self.x, v, &d);
                match self.x.cv(c) {
                    Some(0) => return None,
                    Some(_) => {}
                    None => out.push(c),
                }
            }
        }
        Some(out)
    }

    fn slice(&mut self, st: &State, e: E) -> Vec<E> {
        let mut vars: Vec<u32> = self.x.vars(e).to_vec();
        let mut used = vec![false; st.pc.len()];
        let mut out = vec![e];
        loop {
            let mut changed = false;
            for (i, &c) in st.pc.iter().enumerate() {
                if used[i] {
                    continue;
                }
                let cv = self.x.vars(c);
                if cv.iter().any(|v| vars.contains(v)) {
                    used[i] = true;
                    out.push(c);
                    for v in cv {
                        if !vars.contains(v) {
                            vars.push(*v);
                            changed = true;
                        }
                    }
                }
            }
            if !changed {
                break;
            }
        }
        out
    }

    fn eval_model(&self, st: &State, e: E) -> u128 {
        self.x.eval(e, &|v| st.model[(v >> 2) as usize])
    }

    /// Is `e` satisfiable with the path condition?  `Some(hint)` gives the
    /// variable changes that turn the current model into a witness.
    fn feasible(&mut self, st: &State, e: E) -> Result<Option<Vec<(u32, u64)>>, Stop> {
        if let Some(c) = self.x.cv(e) {
            return Ok(if c == 1 { Some(vec![]) } else { None });
        }
        if self.eval_model(st, e) == 1 {
            return Ok(Some(vec![]));
        }
        if self.o.use_dom {
            if let Some(v) = self.x.single(e) {
                if self.x.var_w[&v] == 8 {
                    let b = self.x.bits(e);
                    let k = (v >> 2) as usize;
                    let d = st.doms[k];
                    let i = [b[0] & d[0], b[1] & d[1], b[2] & d[2], b[3] & d[3]];
                    self.rep.dom_decisions += 1;
                    if i == [0; 4] {
                        return Ok(None);
                    }
                    if !st.taint[k] {
                        let w = i.iter().position(|x| *x != 0).unwrap();
                        let val = w as u64 * 64 + i[w].trailing_zeros() as u64;
                        return Ok(Some(vec![(v, val)]));
                    }
                }
            }
        }
        let cs = match self.prepare(st, e) {
            Some(c) => c,
            None => {
                self.rep.dom_decisions += 1;
                return Ok(None);
            }
        };
        match self.z.check(&self.x, &cs) {
            Res::Sat(m) => Ok(Some(m)),
            Res::Unsat => Ok(None),
            Res::Unknown => Err(Stop::Incomplete("solver gave up on a branch condition".into())),
        }
    }

    fn add(&mut self, st: &mut State, e: E, hint: &[(u32, u64)]) {
        for (v, val) in hint {
            st.model[(*v >> 2) as usize] = *val;
        }
        self.add_split(st, e);
        debug_assert_eq!(self.eval_model(st, e), 1);
    }
    fn add_split(&mut self, st: &mut State, e: E) {
        if self.x.cv(e).is_some() {
            return;
        }
        match self.x.node(e) {
            Node::Bin(Bop::And, a, b) => {
                self.add_split(st, a);
                self.add_split(st, b);
                return;
            }
            Node::Bin(Bop::Xor, a, k) if self.x.cv(k) == Some(1) => match self.x.node(a) {
                Node::Bin(Bop::Or, p, q) => {
                    let np = self.x.not1(p);
                    let nq = self.x.not1(q);
                    self.add_split(st, np);
                    self.add_split(st, nq);
                    return;
                }
                _ => {}
            },
            _ => {}
        }
        if st.pc.contains(&e) {
            return;
        }
        st.pc.push(e);
        let vs = self.x.vars(e).to_vec();
        if vs.len() == 1 && self.x.var_w[&vs[0]] == 8 {
            let b = self.x.bits(e);
            let k = (vs[0] >> 2) as usize;
            for i in 0..4 {
                st.doms[k][i] &= b[i];
            }
        } else {
            for v in vs {
                st.taint[(v >> 2) as usize] = true;
            }
        }
    }

    fn fork(&mut self, st: &State, fr: &Frame) -> State {
        let mut s = st.clone();
        s.frames.push(fr.clone());
        s.forks += 1;
        self.rep.forks += 1;
        s
    }

    /// Lets another thread go on.
    fn switch(st: &mut State, fr: &mut Frame, to: usize) {
        let nf = st.threads[to].frames.pop().unwrap();
        let old = std::mem::replace(fr, nf);
        let mut frames = std::mem::take(&mut st.threads[to].frames);
        std::mem::swap(&mut frames, &mut st.frames);
        frames.push(old);
        let cur = st.cur;
        st.threads[cur].frames = frames;
        st.threads[cur].sp = st.sp;
        st.sp = st.threads[to].sp;
        st.cur = to;
        st.sched.push((to, fr.fi));
    }

    /// The running thread cannot go on, or should not: any other does.
    fn switch_any(&mut self, st: &mut State, fr: &mut Frame) -> Result<(), Stop> {
        let ready: Vec<usize> = (0..st.threads.len()).filter(|&t| t != st.cur && st.threads[t].ts == Ts::Ready).collect();
        if ready.is_empty() {
            if st.threads[st.cur].ts == Ts::Ready {
                return Ok(());
            }
            if st.threads[1..].iter().all(|t| t.ts == Ts::Done) {
                Self::switch(st, fr, 0);
                st.threads.clear();
                return Ok(());
            }
            self.violation(st, Some(fr), "hang", "deadlock: every thread waits".into());
            return Err(Stop::Dead);
        }
        for &t in ready.iter().skip(1) {
            let mut s = self.fork(st, fr);
            let mut f = s.frames.pop().unwrap();
            Self::switch(&mut s, &mut f, t);
            s.frames.push(f);
            self.work.push_back(s);
        }
        Self::switch(st, fr, ready[0]);
        Ok(())
    }

    /// All feasible values of a scalar (at most `lim`).
    fn values(&mut self, st: &State, v: E, lim: usize) -> Result<Vec<(u64, Vec<(u32, u64)>)>, Stop> {
        let w = self.x.w(v);
        if self.o.use_dom {
            if let Some(var) = self.x.single(v) {
                let k = (var >> 2) as usize;
                if self.x.var_w[&var] == 8 && !st.taint[k] {
                    let d = st.doms[k];
                    let mut out: Vec<(u64, Vec<(u32, u64)>)> = vec![];
                    let mut seen = HashSet::new();
                    for b in 0..256u64 {
                        if bit(&d, b) {
                            let r = self.x.eval(v, &|_| b) as u64;
                            if seen.insert(r) {
                                out.push((r, vec![(var, b)]));
                            }
                        }
                    }
                    self.rep.dom_decisions += 1;
                    if out.len() > lim {
                        return Err(Stop::Incomplete(format!("more than {} values for a concretised scalar", lim)));
                    }
                    return Ok(out);
                }
            }
        }
        let mut out = vec![];
        let first = self.eval_model(st, v) as u64;
        out.push((first, vec![]));
        let e0 = self.x.eqc(v, first as u128);
        let mut ne = self.x.not1(e0);
        loop {
            match self.feasible(st, ne)? {
                None => break,
                Some(h) => {
                    let val = {
                        let model: HashMap<u32, u64> = h.iter().cloned().collect();
                        self.x.eval(v, &|q| *model.get(&q).unwrap_or(&st.model[(q >> 2) as usize])) as u64
                    };
                    out.push((val, h));
                    if out.len() > lim {
                        return Err(Stop::Incomplete(format!("more than {} values for a concretised scalar (width {})", lim, w)));
                    }
                    let e1 = self.x.eqc(v, val as u128);
                    let n1 = self.x.not1(e1);
                    ne = self.x.and1(ne, n1);
                }
            }
        }
        Ok(out)
    }

    /// Makes a scalar concrete, forking over its feasible values.
    fn conc(&mut self, st: &mut State, fr: &Frame, v: Val, w: u32) -> Result<u64, Stop> {
        if v.e == 0 {
            return Ok(v.c);
        }
        if let Some(c) = self.x.cv(v.e) {
            return Ok(c as u64);
        }
        if let Some(&k) = st.eqs.get(&v.e) {
            return Ok(k);
        }
        let _ = w;
        let vals = self.values(st, v.e, 4096)?;
        if vals.is_empty() {
            return Err(Stop::Dead);
        }
        for (val, h) in vals.iter().skip(1) {
            let mut s = self.fork(st, fr);
            let e = self.x.eqc(v.e, *val as u128);
            self.add(&mut s, e, h);
            s.eqs.insert(v.e, *val);
            self.work.push_back(s);
        }
        let (val, h) = vals[0].clone();
        let e = self.x.eqc(v.e, val as u128);
        self.add(st, e, &h);
        st.eqs.insert(v.e, val);
        Ok(val)
    }

    fn sub(&self, st: &State, v: Val) -> Val {
        if v.e != 0 {
            if let Some(&k) = st.eqs.get(&v.e) {
                return Val::c(k);
            }
        }
        v
    }

    // ---- path ends -----------------------------------------------------

    fn input_bytes(&self, st: &State) -> Vec<u8> {
        let mut out = vec![];
        for i in &st.inputs {
            let (v, w) = match i {
                Input::Sym(v, w) => (st.model[(*v >> 2) as usize], *w),
                Input::Fixed(v, w) => (*v, *w),
            };
            out.extend_from_slice(&v.to_le_bytes()[..w as usize / 8]);
        }
        out
    }

    fn violation(&mut self, st: &State, fr: Option<&Frame>, kind: &str, mut msg: String) {
        if !st.sched.is_empty() {
            let s: Vec<String> = st.sched.iter().map(|(t, f)| format!("{} at {}", t, self.fname(*f))).collect();
            msg = format!("{} [schedule: {}]", msg, s.join(", "));
        }
        let mut stack: Vec<String> = st.frames.iter().map(|f| self.fname(f.fi)).collect();
        if let Some(f) = fr {
            stack.push(self.fname(f.fi));
        }
        let input = self.input_bytes(st);
        self.rep.violations.push(Violation { kind: kind.into(), msg, input, stack });
    }

    fn path_end(&mut self, st: &State) {
        self.rep.paths += 1;
        self.rep.cover |= st.cover;
        self.rep.maxlen = self.rep.maxlen.max(st.steps);
        // independent confirmation of the path condition by the solver
        if self.o.confirm_every > 0 && (self.rep.paths - 1) % self.o.confirm_every == 0 && !st.pc.is_empty() {
            match self.z.check(&self.x, &st.pc) {
                Res::Sat(_) => {}
                Res::Unsat => self.rep.incomplete.push("engine error: completed path is infeasible".into()),
                Res::Unknown => self.rep.incomplete.push("solver gave up confirming a path".into()),
            }
        }
        if self.o.traces_every > 0 && (self.rep.paths - 1) % self.o.traces_every == 0 && self.rep.traces.len() < self.o.max_traces {
            let obs = st
                .obs
                .iter()
                .map(|(v, _)| if v.e == 0 { v.c } else { self.eval_model(st, v.e) as u64 })
                .collect();
            self.rep.traces.push(Trace { input: self.input_bytes(st), obs });
        }
    }

    pub fn done(&self) -> bool {
        self.rep.violations.len() >= self.o.max_violations
    }

    pub fn run_all(&mut self) {
        while let Some(st) = self.work.pop_back() {
            if self.done() {
                return;
            }
            if std::time::Instant::now() > self.o.deadline {
                self.rep.incomplete.push("time budget exhausted".into());
                return;
            }
            self.run(st);
        }
    }

    /// Breadth-first until there are `n` pending states (or none).
    pub fn spread(&mut self, n: usize) {
        while self.work.len() < n {
            match self.work.pop_front() {
                None => return,
                Some(st) => {
                    if self.done() {
                        return;
                    }
                    if std::time::Instant::now() > self.o.deadline {
                        self.rep.incomplete.push("time budget exhausted".into());
                        return;
                    }
                    self.run(st)
                }
            }
        }
    }

    pub fn run(&mut self, mut st: State) {
        let mut fr = st.frames.pop().unwrap();
        let start = st.steps;
        let r = self.exec(&mut st, &mut fr);
        self.rep.steps += st.steps - start;
        match r {
            Ok(()) => self.path_end(&st),
            Err(Stop::Dead) => {}
            Err(Stop::Bad(m)) => self.violation(&st, Some(&fr), "crash", m),
            Err(Stop::Incomplete(m)) => {
                let at = format!("{} in {}", m, self.fname(fr.fi));
                if !self.rep.incomplete.contains(&at) {
                    self.rep.incomplete.push(at);
                }
            }
        }
    }

    #[inline(always)]
    fn jump(fr: &mut Frame, e: u32) {
        let f = fr.f.clone();
        let ed = &f.edges[e as usize];
        match ed.moves.len() {
            0 => {}
            1 => {
                let (d, o) = ed.moves[0];
                fr.regs[d as usize] = if o >= 0 { fr.regs[o as usize] } else { f.consts[!o as usize] };
            }
            _ => {
                let mut tmp: [Val; 16] = [Val { e: 0, c: 0 }; 16];
                if ed.moves.len() <= 16 {
                    for (i, (_, o)) in ed.moves.iter().enumerate() {
                        tmp[i] = if *o >= 0 { fr.regs[*o as usize] } else { f.consts[!*o as usize] };
                    }
                    for (i, (d, _)) in ed.moves.iter().enumerate() {
                        fr.regs[*d as usize] = tmp[i];
                    }
                } else {
                    let t: Vec<Val> = ed
                        .moves
                        .iter()
                        .map(|(_, o)| if *o >= 0 { fr.regs[*o as usize] } else { f.consts[!*o as usize] })
                        .collect();
                    for (i, (d, _)) in ed.moves.iter().enumerate() {
                        fr.regs[*d as usize] = t[i];
                    }
                }
            }
        }
        fr.pc = ed.to;
    }

    fn sym_load(&mut self, st: &mut State, fr: &Frame, addr: Val, w: u32) -> Result<Val, Stop> {
        let n = ((w + 7) / 8) as usize;
        if let Some(&k) = st.eqs.get(&addr.e) {
            return Ok(st.mem.load(&mut self.x, k, n)?);
        }
        let vals = self.values(st, addr.e, 1024)?;
        if vals.is_empty() {
            return Err(Stop::Dead);
        }
        let mut loaded = vec![];
        let mut pointerish = false;
        for (a, _) in &vals {
            match st.mem.load(&mut self.x, *a, n) {
                Ok(v) => {
                    if w >= 64 && v.e == 0 && v.c >= FBASE && v.c < 0xf000_0000 {
                        pointerish = true;
                    }
                    loaded.push((*a, v));
                }
                Err(_) => pointerish = true,
            }
        }
        let mut groups: Vec<(Val, Vec<u64>)> = vec![];
        for (a, v) in &loaded {
            match groups.iter_mut().find(|g| g.0 == *v) {
                Some(g) => g.1.push(*a),
                None => groups.push((*v, vec![*a])),
            }
        }
        if pointerish || groups.len() > 64 {
            let a = self.conc(st, fr, addr, 64)?;
            return Ok(st.mem.load(&mut self.x, a, n)?);
        }
        // largest group last, as the default
        groups.sort_by_key(|g| g.1.len());
        let (mut acc, _) = groups.pop().unwrap();
        let single = match self.x.single(addr.e) {
            Some(v) if self.x.var_w[&v] == 8 => Some(v),
            _ => None,
        };
        let lw = 8 * n as u32;
        for (v, addrs) in groups {
            let mut cond = self.x.konst(0, 1);
            if let Some(var) = single {
                // ranges of the byte variable
                let ve = self.x.var(var, 8);
                let aset: HashSet<u64> = addrs.iter().cloned().collect();
                let mut b = 0u64;
                let tab: Vec<bool> = (0..256u64).map(|b| aset.contains(&(self.x.eval(addr.e, &|_| b) as u64))).collect();
                while b < 256 {
                    if tab[b as usize] {
                        let lo = b;
                        while b + 1 < 256 && tab[b as usize + 1] {
                            b += 1;
                        }
                        let l = self.x.konst(lo as u128, 8);
                        let h = self.x.konst(b as u128, 8);
                        let c1 = self.x.cmp(Pred::Ule, l, ve);
                        let c2 = self.x.cmp(Pred::Ule, ve, h);
                        let c = self.x.and1(c1, c2);
                        cond = self.x.or1(cond, c);
                    }
                    b += 1;
                }
            } else {
                for a in addrs {
                    let c = self.x.eqc(addr.e, a as u128);
                    cond = self.x.or1(cond, c);
                }
            }
            let cv = self.x.of_e(cond);
            acc = self.x.vite(lw, cv, v, acc);
        }
        Ok(acc)
    }

    fn exec(&mut self, st: &mut State, fr: &mut Frame) -> Result<(), Stop> {
        macro_rules! get {
            ($o:expr) => {{
                let o = $o;
                if o >= 0 {
                    fr.regs[o as usize]
                } else {
                    fr.f.consts[!o as usize]
                }
            }};
        }
        let mut tick = 0u32;
        loop {
            st.steps += 1;
            tick += 1;
            if tick & 0xfffff == 0 {
                if st.steps > self.o.max_steps {
                    self.violation(st, Some(fr), "hang", format!("more than {} steps on one path", self.o.max_steps));
                    return Err(Stop::Dead);
                }
                if std::time::Instant::now() > self.o.deadline {
                    return Err(Stop::Incomplete("time budget exhausted".into()));
                }
            }
            let f: *const Func = &*fr.f;
            // the function outlives this step: frames keep it alive and functions are never dropped
            let inst = unsafe { &(&(*f).code)[fr.pc as usize] };
            match inst {
                Inst::Sched(must) => {
                    fr.pc += 1;
                    if !st.threads.is_empty() {
                        if *must {
                            self.switch_any(st, fr)?;
                        } else if st.preempt > 0 {
                            for t in 1..st.threads.len() {
                                if t != st.cur && st.threads[t].ts == Ts::Ready {
                                    let mut s = self.fork(st, fr);
                                    s.preempt -= 1;
                                    let mut f = s.frames.pop().unwrap();
                                    Self::switch(&mut s, &mut f, t);
                                    s.frames.push(f);
                                    self.work.push_back(s);
                                }
                            }
                        }
                    }
                }
                Inst::Bin { op, w, d, a, b } => {
                    let (mut va, vb) = (get!(*a), get!(*b));
                    if va.e != 0 || vb.e != 0 {
                        va = self.sub(st, va);
                        let vb = self.sub(st, vb);
                        fr.regs[*d as usize] = self.x.vbin(*op, *w as u32, va, vb);
                    } else {
                        fr.regs[*d as usize] = self.x.vbin(*op, *w as u32, va, vb);
                    }
                    fr.pc += 1;
                }
                Inst::Cmp { p, w, neg, d, a, b } => {
                    let (va, vb) = (get!(*a), get!(*b));
                    let mut r = self.x.vcmp(*p, *w as u32, va, vb);
                    if *neg {
                        if r.e == 0 {
                            r.c ^= 1;
                        } else {
                            let e = self.x.not1(r.e);
                            r = self.x.of_e(e);
                        }
                    }
                    fr.regs[*d as usize] = r;
                    fr.pc += 1;
                }
                Inst::Zext { d, a, f, t } => {
                    let v = get!(*a);
                    fr.regs[*d as usize] = self.x.vzext(v, *f as u32, *t as u32);
                    fr.pc += 1;
                }
                Inst::Sext { d, a, f, t } => {
                    let v = get!(*a);
                    fr.regs[*d as usize] = self.x.vsext(v, *f as u32, *t as u32);
                    fr.pc += 1;
                }
                Inst::Trunc { d, a, f, t } => {
                    let v = get!(*a);
                    fr.regs[*d as usize] = self.x.vextract(v, *f as u32, 0, *t as u32);
                    fr.pc += 1;
                }
                Inst::Mov { d, a } => {
                    fr.regs[*d as usize] = get!(*a);
                    fr.pc += 1;
                }
                Inst::Select { d, c, a, b, w } => {
                    let c = get!(*c);
                    let (va, vb) = (get!(*a), get!(*b));
                    if c.e != 0 && va != vb && *w == 64 {
                        // pointers: decide now rather than carry symbolic addresses
                        let p = |v: Val| v.e == 0 && v.c >= FBASE && v.c < 0xf000_0000;
                        if p(va) || p(vb) {
                            let k = self.conc(st, fr, c, 1)?;
                            fr.regs[*d as usize] = if k & 1 == 1 { va } else { vb };
                            fr.pc += 1;
                            continue;
                        }
                    }
                    fr.regs[*d as usize] = self.x.vite(*w as u32, c, va, vb);
                    fr.pc += 1;
                }
                Inst::Load { d, p, off, w } => {
                    let mut a = get!(*p);
                    if a.e != 0 {
                        a = self.sub(st, a);
                    }
                    let n = ((*w as u32 + 7) / 8) as usize;
                    let v = if a.e == 0 {
                        st.mem.load(&mut self.x, a.c.wrapping_add(*off as u64), n)?
                    } else {
                        let a = self.x.vbin(Bop::Add, 64, a, Val::c(*off as u64));
                        self.sym_load(st, fr, a, *w as u32)?
                    };
                    let v = if *w & 7 != 0 { self.x.vextract(v, 8 * n as u32, 0, *w as u32) } else { v };
                    fr.regs[*d as usize] = v;
                    fr.pc += 1;
                }
                Inst::Store { v, p, off, w } => {
                    let a = get!(*p);
                    let a = self.conc(st, fr, a, 64)?;
                    let n = ((*w as u32 + 7) / 8) as usize;
                    let mut v = get!(*v);
                    if *w & 7 != 0 {
                        v = self.x.vzext(v, *w as u32, 8 * n as u32);
                    }
                    st.mem.store(&mut self.x, a.wrapping_add(*off as u64), v, n)?;
                    fr.pc += 1;
                }
                Inst::GepC { d, b, off } => {
                    let b = get!(*b);
                    fr.regs[*d as usize] = if b.e == 0 {
                        Val::c(b.c.wrapping_add(*off as u64))
                    } else {
                        self.x.vbin(Bop::Add, 64, b, Val::c(*off as u64))
                    };
                    fr.pc += 1;
                }
                Inst::Gep1 { d, b, i, s } => {
                    let (b, i) = (get!(*b), get!(*i));
                    fr.regs[*d as usize] = if b.e == 0 && i.e == 0 {
                        Val::c(b.c.wrapping_add(i.c.wrapping_mul(*s)))
                    } else {
                        let i = self.sub(st, i);
                        let o = self.x.vbin(Bop::Mul, 64, i, Val::c(*s));
                        self.x.vbin(Bop::Add, 64, b, o)
                    };
                    fr.pc += 1;
                }
                Inst::Gep { d, b, off, idx } => {
                    let mut acc = get!(*b);
                    acc = self.x.vbin(Bop::Add, 64, acc, Val::c(*off as u64));
                    for (i, s, w) in idx.iter() {
                        let mut v = get!(*i);
                        v = self.sub(st, v);
                        let v = self.x.vsext(v, *w as u32, 64);
                        let o = self.x.vbin(Bop::Mul, 64, v, Val::c(*s));
                        acc = self.x.vbin(Bop::Add, 64, acc, o);
                    }
                    fr.regs[*d as usize] = acc;
                    fr.pc += 1;
                }
                Inst::Br(e) => Self::jump(fr, *e),
                Inst::CondBr { c, t, e } => {
                    let c = get!(*c);
                    if c.e == 0 {
                        Self::jump(fr, if c.c & 1 == 1 { *t } else { *e });
                    } else {
                        let pos = c.e;
                        let neg = self.x.not1(pos);
                        let ft = self.feasible(st, pos)?;
                        let ff = if ft.is_none() {
                            Some(vec![])
                        } else {
                            self.feasible(st, neg)?
                        };
                        match (ft, ff) {
                            (Some(h1), Some(h2)) => {
                                let mut s = self.fork(st, fr);
                                self.add(&mut s, neg, &h2);
                                Self::jump(s.frames.last_mut().unwrap(), *e);
                                self.work.push_back(s);
                                self.add(st, pos, &h1);
                                Self::jump(fr, *t);
                            }
                            (Some(_), None) => Self::jump(fr, *t),
                            (None, _) => Self::jump(fr, *e),
                        }
                    }
                }
                Inst::Switch { v, w, cases, d } => {
                    let mut v = get!(*v);
                    v = self.sub(st, v);
                    if let Some(k) = self.x.val_const(v) {
                        let e = cases.iter().find(|(c, _)| *c == k).map(|(_, e)| *e).unwrap_or(*d);
                        Self::jump(fr, e);
                        continue;
                    }
                    let _ = w;
                    // one condition per distinct target
                    let mut groups: Vec<(u32, E)> = vec![];
                    let mut any = self.x.konst(0, 1);
                    for (c, e) in cases.iter() {
                        if e == d {
                            continue;
                        }
                        let q = self.x.eqc(v.e, *c);
                        any = self.x.or1(any, q);
                        match groups.iter_mut().find(|g| g.0 == *e) {
                            Some(g) => g.1 = self.x.or1(g.1, q),
                            None => groups.push((*e, q)),
                        }
                    }
                    let none = self.x.not1(any);
                    groups.push((*d, none));
                    let mut feas = vec![];
                    for (e, q) in groups {
                        if let Some(h) = self.feasible(st, q)? {
                            feas.push((e, q, h));
                        }
                    }
                    if feas.is_empty() {
                        return Err(Stop::Dead);
                    }
                    for (e, q, h) in feas.iter().skip(1) {
                        let mut s = self.fork(st, fr);
                        self.add(&mut s, *q, h);
                        Self::jump(s.frames.last_mut().unwrap(), *e);
                        self.work.push_back(s);
                    }
                    let (e, q, h) = &feas[0];
                    self.add(st, *q, h);
                    Self::jump(fr, *e);
                }
                Inst::Ret(v) => {
                    let vals: [Val; 4];
                    let n = v.len();
                    let mut big = vec![];
                    if n <= 4 {
                        let mut t = [Val::c(0); 4];
                        for i in 0..n {
                            t[i] = get!(v[i]);
                        }
                        vals = t;
                    } else {
                        vals = [Val::c(0); 4];
                        for o in v.iter() {
                            big.push(get!(*o));
                        }
                    }
                    st.sp = fr.sp;
                    match st.frames.pop() {
                        None if !st.threads.is_empty() => {
                            let cur = st.cur;
                            st.threads[cur].ts = Ts::Done;
                            self.switch_any(st, fr)?;
                        }
                        None => return Ok(()),
                        Some(mut up) => {
                            let src: &[Val] = if n <= 4 { &vals[..n] } else { &big };
                            for i in 0..(fr.ret_n as usize).min(n) {
                                up.regs[fr.ret_d as usize + i] = src[i];
                            }
                            let after = fr.after;
                            *fr = up;
                            match after {
                                Some(e) => Self::jump(fr, e),
                                None => fr.pc += 1,
                            }
                        }
                    }
                }
                Inst::Unreachable => return Err(Stop::Bad("unreachable code executed".into())),
                Inst::Call { d, nd, f, args, after } => {
                    let fi = match f {
                        Callee::Fun(i) => *i,
                        Callee::Ind(o) => {
                            let v = get!(*o);
                            let a = self.conc(st, fr, v, 64)?;
                            let i = (a.wrapping_sub(FBASE)) / 16;
                            if a < FBASE || i >= self.m.funcs.len() as u64 {
                                return Err(Stop::Bad(format!("call through a bad function pointer {:#x}", a)));
                            }
                            i as u32
                        }
                    };
                    if let FK::Unres = self.fk[fi as usize] {
                        self.resolve(fi);
                    }
                    match &self.fk[fi as usize] {
                        FK::Body(fun) => {
                            if st.frames.len() > 4000 {
                                self.violation(st, Some(fr), "crash", "stack overflow (call depth)".into());
                                return Err(Stop::Dead);
                            }
                            let fun = fun.clone();
                            if self.trace_calls {
                                eprintln!("{}{}", " ".repeat(st.frames.len()), self.fname(fi));
                            }
                            self.rep.funcs.insert(fi);
                            let mut regs = vec![Val::c(0); fun.nregs as usize];
                            for (i, o) in args.iter().enumerate().take(fun.nparams as usize) {
                                regs[i] = get!(*o);
                            }
                            let nf = Frame { f: fun, fi, pc: 0, regs, sp: st.sp, ret_d: *d, ret_n: *nd, after: *after };
                            let old = std::mem::replace(fr, nf);
                            st.frames.push(old);
                        }
                        FK::Panic => {
                            let msg = self.panic_message(st, fr, fi, args);
                            self.violation(st, Some(fr), "panic", msg);
                            return Err(Stop::Dead);
                        }
                        FK::Ext(Ext::SymThreads) => {
                            let mut v = [0u64; 4];
                            for i in 0..4 {
                                let x = get!(args[i]);
                                v[i] = self.conc(st, fr, x, 64)?;
                            }
                            match after {
                                Some(e) => Self::jump(fr, *e),
                                None => fr.pc += 1,
                            }
                            self.start_threads(st, fr, v)?;
                        }
                        FK::Ext(e) => {
                            let e = *e;
                            let mut av: Vec<Val> = Vec::with_capacity(args.len());
                            for o in args.iter() {
                                av.push(get!(*o));
                            }
                            let r = self.ext(st, fr, e, fi, &av)?;
                            if *nd > 0 {
                                fr.regs[*d as usize] = r;
                            }
                            match after {
                                Some(e) => Self::jump(fr, *e),
                                None => fr.pc += 1,
                            }
                            if !st.threads.is_empty() && (e == Ext::Yield || st.threads[st.cur].ts != Ts::Ready) {
                                self.switch_any(st, fr)?;
                            }
                        }
                        FK::Unres => unreachable!(),
                    }
                }
                Inst::Intr { k, d, w, w2, args } => {
                    self.intr(st, fr, *k, *d, *w as u32, *w2 as u32, args)?;
                    fr.pc += 1;
                }
                Inst::Alloca { d, size, n, align } => {
                    let n = get!(*n);
                    let n = self.conc(st, fr, n, 64)?;
                    let sz = size * n;
                    st.sp = (st.sp - sz.max(1)) / align * align;
                    if st.sp < STACK_BASE {
                        return Err(Stop::Bad("stack overflow".into()));
                    }
                    fr.regs[*d as usize] = Val::c(st.sp);
                    fr.pc += 1;
                }
                Inst::Rmw { op, d, p, v, w } => {
                    let a = get!(*p);
                    let a = self.conc(st, fr, a, 64)?;
                    let n = *w as usize / 8;
                    let old = st.mem.load(&mut self.x, a, n)?;
                    let v = get!(*v);
                    let w = *w as u32;
                    let nv = match op {
                        Rmw::Xchg => v,
                        Rmw::Add => self.x.vbin(Bop::Add, w, old, v),
                        Rmw::Sub => self.x.vbin(Bop::Sub, w, old, v),
                        Rmw::And => self.x.vbin(Bop::And, w, old, v),
                        Rmw::Or => self.x.vbin(Bop::Or, w, old, v),
                        Rmw::Xor => self.x.vbin(Bop::Xor, w, old, v),
                        Rmw::Nand => {
                            let t = self.x.vbin(Bop::And, w, old, v);
                            self.x.vbin(Bop::Xor, w, t, Val::c(mask64(w)))
                        }
                        Rmw::UMax | Rmw::UMin | Rmw::Max | Rmw::Min => {
                            let pr = if matches!(op, Rmw::UMax | Rmw::UMin) { Pred::Ult } else { Pred::Slt };
                            let c = self.x.vcmp(pr, w, old, v);
                            if matches!(op, Rmw::UMax | Rmw::Max) {
                                self.x.vite(w, c, v, old)
                            } else {
                                self.x.vite(w, c, old, v)
                            }
                        }
                    };
                    st.mem.store(&mut self.x, a, nv, n)?;
                    fr.regs[*d as usize] = old;
                    fr.pc += 1;
                }
                Inst::CmpXchg { d, p, c, n, w } => {
                    let a = get!(*p);
                    let a = self.conc(st, fr, a, 64)?;
                    let nb = *w as usize / 8;
                    let old = st.mem.load(&mut self.x, a, nb)?;
                    let (c, n) = (get!(*c), get!(*n));
                    let eq = self.x.vcmp(Pred::Eq, *w as u32, old, c);
                    let eq = self.conc(st, fr, eq, 1)?;
                    if eq == 1 {
                        st.mem.store(&mut self.x, a, n, nb)?;
                    }
                    fr.regs[*d as usize] = old;
                    fr.regs[*d as usize + 1] = Val::c(eq);
                    fr.pc += 1;
                }
                Inst::Pack { d, w, ew, parts } => {
                    let mut acc = get!(parts[0]);
                    for k in 1..parts.len() {
                        let h = get!(parts[k]);
                        acc = self.x.vconcat(h, *ew as u32, acc, *ew as u32 * k as u32);
                    }
                    let _ = w;
                    fr.regs[*d as usize] = acc;
                    fr.pc += 1;
                }
                Inst::Unpack { d, n, ew, w, a } => {
                    let v = get!(*a);
                    for k in 0..*n {
                        fr.regs[(*d + k) as usize] = self.x.vextract(v, *w as u32, k * *ew as u32, *ew as u32);
                    }
                    fr.pc += 1;
                }
                Inst::Fp { op, d, w, w2, args } => {
                    let mut v = vec![];
                    for (k, a) in args.iter().enumerate() {
                        let x = get!(*a);
                        let aw = if *op == Fp::Powi && k == 1 { 32 } else { *w as u32 };
                        v.push(self.conc(st, fr, x, aw)?);
                    }
                    fr.regs[*d as usize] = Val::c(op.eval(*w, *w2, &v));
                    fr.pc += 1;
                }
                Inst::ExtractDyn { d, base, n, i, iw, w: _ } => {
                    let iv = get!(*i);
                    let k = self.conc(st, fr, iv, *iw as u32)?;
                    let k = k.min(*n as u64 - 1);
                    fr.regs[*d as usize] = fr.regs[*base as usize + k as usize];
                    fr.pc += 1;
                }
                Inst::Bad(s) => return Err(Stop::Incomplete(format!("not supported: {}", s))),
            }
        }
    }

    /// `v`: how many threads, the function each one runs, its first argument,
    /// and how often a thread may be interrupted.
    fn start_threads(&mut self, st: &mut State, fr: &mut Frame, v: [u64; 4]) -> Result<(), Stop> {
        let [n, f, data, preempt] = v;
        let fi = f.wrapping_sub(FBASE) / 16;
        if !st.threads.is_empty() || n == 0 || n > MAX_THREADS || f < FBASE || fi >= self.m.funcs.len() as u64 {
            return Err(Stop::Incomplete("threads the harness cannot have".into()));
        }
        let fi = fi as u32;
        self.resolve(fi);
        let f = match &self.fk[fi as usize] {
            FK::Body(f) => f.clone(),
            _ => return Err(Stop::Incomplete("threads without a function".into())),
        };
        self.rep.funcs.insert(fi);
        for (a, (stride, init)) in &self.m.tls {
            for k in 1..=n {
                st.mem.write_bytes(a + k * stride, init)?;
            }
        }
        st.threads.push(Thread { frames: vec![], sp: 0, ts: Ts::Joining });
        for i in 0..n {
            let sp = STACK_TOP - 4096 - (i + 1) * 0x40_0000;
            let mut regs = vec![Val::c(0); f.nregs as usize];
            regs[0] = Val::c(data);
            regs[1] = Val::c(i);
            let frame = Frame { f: f.clone(), fi, pc: 0, regs, sp, ret_d: 0, ret_n: 0, after: None };
            st.threads.push(Thread { frames: vec![frame], sp, ts: Ts::Ready });
        }
        st.cur = 0;
        st.preempt = preempt;
        self.switch_any(st, fr)
    }

    fn panic_message(&mut self, st: &State, fr: &Frame, fi: u32, args: &[Op]) -> String {
        let get = |o: Op| if o >= 0 { fr.regs[o as usize] } else { fr.f.consts[!o as usize] };
        let mut m = self.fname(fi);
        // the last pointer argument of panic functions is the source location
        for o in args.iter().rev() {
            let v = get(*o);
            if v.e == 0 && v.c >= GBASE && v.c < st.mem.glob_top {
                let p = st.mem.load(&mut self.x, v.c, 8);
                let l = st.mem.load(&mut self.x, v.c + 8, 8);
                let ln = st.mem.load(&mut self.x, v.c + 16, 4);
                if let (Ok(p), Ok(l), Ok(ln)) = (p, l, ln) {
                    if l.e == 0 && l.c > 3 && l.c < 400 && p.c >= GBASE && p.c < st.mem.glob_top {
                        if let Ok((b, None)) = st.mem.read(p.c, l.c) {
                            // the length may count a terminating NUL
                            let s = String::from_utf8_lossy(&b).trim_end_matches('\0').to_string();
                            if s.contains(".rs") {
                                m = format!("{} at {}:{}", m, s, ln.c);
                                break;
                            }
                        }
                    }
                }
            }
        }
        m
    }

    fn intr(&mut self, st: &mut State, fr: &mut Frame, k: Intr, d: u32, w: u32, w2: u32, args: &[Op]) -> Result<(), Stop> {
        let get = |fr: &Frame, o: Op| if o >= 0 { fr.regs[o as usize] } else { fr.f.consts[!o as usize] };
        let a = |fr: &Frame, i: usize| get(fr, args[i]);
        let r = match k {
            Intr::Nop => return Ok(()),
            Intr::Tls => {
                let mut p = a(fr, 0);
                if st.cur != 0 {
                    match self.m.tls.get(&p.c) {
                        Some((stride, _)) => p.c += stride * st.cur as u64,
                        None => return Err(Stop::Incomplete("not a thread-local variable".into())),
                    }
                }
                p
            }
            Intr::Trap => {
                self.violation(st, Some(fr), "crash", "trap".into());
                return Err(Stop::Dead);
            }
            Intr::Memcpy => {
                let (p, q, n) = (a(fr, 0), a(fr, 1), a(fr, 2));
                let n = self.conc(st, fr, n, 64)?;
                if n == 0 {
                    return Ok(());
                }
                let p = self.conc(st, fr, p, 64)?;
                let q = self.conc(st, fr, q, 64)?;
                if n > 1 << 26 {
                    return Err(Stop::Bad(format!("copy of {} bytes", n)));
                }
                st.mem.copy(p, q, n)?;
                return Ok(());
            }
            Intr::Memset => {
                let (p, v, n) = (a(fr, 0), a(fr, 1), a(fr, 2));
                let n = self.conc(st, fr, n, 64)?;
                if n == 0 {
                    return Ok(());
                }
                let p = self.conc(st, fr, p, 64)?;
                if n > 1 << 26 {
                    return Err(Stop::Bad(format!("fill of {} bytes", n)));
                }
                st.mem.fill(p, v, n)?;
                return Ok(());
            }
            Intr::UMin | Intr::UMax | Intr::SMin | Intr::SMax => {
                let (p, q) = (a(fr, 0), a(fr, 1));
                let pr = if matches!(k, Intr::UMin | Intr::UMax) { Pred::Ult } else { Pred::Slt };
                let c = self.x.vcmp(pr, w, p, q);
                if matches!(k, Intr::UMin | Intr::SMin) {
                    self.x.vite(w, c, p, q)
                } else {
                    self.x.vite(w, c, q, p)
                }
            }
            Intr::Ctlz | Intr::Cttz | Intr::Ctpop => {
                let v = a(fr, 0);
                match self.x.val_const(v) {
                    Some(c) => {
                        let r = match k {
                            Intr::Ctlz => {
                                if c == 0 {
                                    w
                                } else {
                                    c.leading_zeros() - (128 - w)
                                }
                            }
                            Intr::Cttz => {
                                if c == 0 {
                                    w
                                } else {
                                    c.trailing_zeros()
                                }
                            }
                            _ => c.count_ones(),
                        };
                        Val::c(r as u64)
                    }
                    None => {
                        let mut acc = match k {
                            Intr::Ctpop => self.x.konst(0, w),
                            _ => self.x.konst(w as u128, w),
                        };
                        for i in 0..w {
                            let i = match k {
                                Intr::Cttz => w - 1 - i,
                                _ => i,
                            };
                            let b = self.x.extract(v.e, i, 1);
                            match k {
                                Intr::Cttz => {
                                    let kk = self.x.konst(i as u128, w);
                                    acc = self.x.ite(b, kk, acc);
                                }
                                Intr::Ctlz => {
                                    let kk = self.x.konst((w - 1 - i) as u128, w);
                                    acc = self.x.ite(b, kk, acc);
                                }
                                _ => {
                                    let z = self.x.zext(b, w);
                                    acc = self.x.bin(Bop::Add, acc, z);
                                }
                            }
                        }
                        self.x.of_e(acc)
                    }
                }
            }
            Intr::Fshl | Intr::Fshr => {
                let (p, q, s) = (a(fr, 0), a(fr, 1), a(fr, 2));
                let s = self.conc(st, fr, s, w)?;
                let s = (s % w as u64) as u32;
                let s = if k == Intr::Fshl { s } else { (w - s) % w };
                if s == 0 {
                    if k == Intr::Fshl {
                        p
                    } else {
                        q
                    }
                } else if self.x.val_const(p).is_some() && self.x.val_const(q).is_some() && w <= 64 {
                    let (pc, qc) = (p.c as u128, q.c as u128);
                    let t = ((pc << w) | qc) >> (w - s);
                    Val::c((t & mask128(w)) as u64)
                } else {
                    // high w bits of (p ++ q) << s
                    let ph = self.x.vextract(p, w, 0, w - s);
                    let ql = self.x.vextract(q, w, w - s, s);
                    self.x.vconcat(ph, w - s, ql, s)
                }
            }
            Intr::Bswap => {
                let v = a(fr, 0);
                let mut acc = self.x.vextract(v, w, w - 8, 8);
                for i in 1..w / 8 {
                    let b = self.x.vextract(v, w, w - 8 - 8 * i, 8);
                    acc = self.x.vconcat(b, 8, acc, 8 * i);
                }
                acc
            }
            Intr::Bitreverse => {
                let v = a(fr, 0);
                let mut acc = self.x.vextract(v, w, w - 1, 1);
                for i in 1..w {
                    let b = self.x.vextract(v, w, w - 1 - i, 1);
                    acc = self.x.vconcat(b, 1, acc, i);
                }
                acc
            }
            Intr::Abs => {
                let v = a(fr, 0);
                let n = self.x.vbin(Bop::Sub, w, Val::c(0), v);
                let c = self.x.vcmp(Pred::Slt, w, v, Val::c(0));
                self.x.vite(w, c, n, v)
            }
            Intr::Ucmp | Intr::Scmp => {
                let (p, q) = (a(fr, 0), a(fr, 1));
                let pr = if k == Intr::Ucmp { Pred::Ult } else { Pred::Slt };
                let lt = self.x.vcmp(pr, w, p, q);
                let gt = self.x.vcmp(pr, w, q, p);
                let m1 = Val::c(mask64(w2));
                let t = self.x.vite(w2, gt, Val::c(1), Val::c(0));
                self.x.vite(w2, lt, m1, t)
            }
            Intr::UAddO | Intr::USubO | Intr::UMulO | Intr::SAddO | Intr::SSubO | Intr::SMulO => {
                let (p, q) = (a(fr, 0), a(fr, 1));
                let op = match k {
                    Intr::UAddO | Intr::SAddO => Bop::Add,
                    Intr::USubO | Intr::SSubO => Bop::Sub,
                    _ => Bop::Mul,
                };
                let r = self.x.vbin(op, w, p, q);
                let kc = self.x.val_const(q).or(self.x.val_const(p));
                let both = self.x.val_const(q).is_some() && self.x.val_const(p).is_some();
                let o = if op == Bop::Mul && kc.is_some() && !both {
                    // multiplication by a constant: compare with the limits
                    let kc = kc.unwrap();
                    let sym = if self.x.val_const(q).is_some() { p } else { q };
                    let e = self.x.to_e(sym, w);
                    if k == Intr::UMulO {
                        if kc == 0 {
                            Val::c(0)
                        } else {
                            let lim = self.x.konst(mask128(w) / kc, w);
                            let c = self.x.cmp(Pred::Ult, lim, e);
                            self.x.of_e(c)
                        }
                    } else {
                        let sh = 128 - w;
                        let c = ((kc << sh) as i128) >> sh;
                        let (mx, mn) = (i128::MAX >> sh, i128::MIN >> sh);
                        if c == 0 || c == 1 {
                            Val::c(0)
                        } else if c == -1 {
                            let m = self.x.konst(mn as u128 & mask128(w), w);
                            let b = self.x.cmp(Pred::Eq, e, m);
                            self.x.of_e(b)
                        } else {
                            // c * e in [mn, mx]
                            let (lo, hi) = if c > 0 { (mn / c, mx / c) } else { (mx / c, mn / c) };
                            let lo = self.x.konst(lo as u128 & mask128(w), w);
                            let hi = self.x.konst(hi as u128 & mask128(w), w);
                            let b1 = self.x.cmp(Pred::Slt, e, lo);
                            let b2 = self.x.cmp(Pred::Slt, hi, e);
                            let b = self.x.or1(b1, b2);
                            self.x.of_e(b)
                        }
                    }
                } else if w > 64 {
                    match (self.x.val_const(p), self.x.val_const(q), k) {
                        (Some(x), Some(y), Intr::UAddO) => Val::c(x.checked_add(y).is_none() as u64),
                        (Some(x), Some(y), Intr::USubO) => Val::c((x < y) as u64),
                        (Some(x), Some(y), Intr::UMulO) => Val::c(x.checked_mul(y).is_none() as u64),
                        (Some(x), Some(y), Intr::SAddO) => Val::c((x as i128).checked_add(y as i128).is_none() as u64),
                        (Some(x), Some(y), Intr::SSubO) => Val::c((x as i128).checked_sub(y as i128).is_none() as u64),
                        (Some(x), Some(y), Intr::SMulO) => Val::c((x as i128).checked_mul(y as i128).is_none() as u64),
                        (_, _, Intr::UAddO) => self.x.vcmp(Pred::Ult, w, r, p),
                        (_, _, Intr::USubO) => self.x.vcmp(Pred::Ult, w, p, q),
                        (_, _, Intr::UMulO) => {
                            // overflow iff q != 0 and p > max / q, with q constant
                            match self.x.val_const(q).or(self.x.val_const(p)) {
                                Some(kc) if kc != 0 => {
                                    let sym = if self.x.val_const(q).is_some() { p } else { q };
                                    let lim = self.x.konst(mask128(w) / kc, w);
                                    let e = self.x.to_e(sym, w);
                                    let c = self.x.cmp(Pred::Ult, lim, e);
                                    self.x.of_e(c)
                                }
                                Some(_) => Val::c(0),
                                None => return Err(Stop::Incomplete("128-bit symbolic multiply overflow".into())),
                            }
                        }
                        (_, _, Intr::SAddO) | (_, _, Intr::SSubO) => {
                            let e1 = self.x.to_e(p, w);
                            let e2 = self.x.to_e(q, w);
                            let er = self.x.to_e(r, w);
                            let s1 = self.x.extract(e1, w - 1, 1);
                            let s2 = self.x.extract(e2, w - 1, 1);
                            let sr = self.x.extract(er, w - 1, 1);
                            let d1 = self.x.bin(Bop::Xor, s1, s2);
                            let same = if k == Intr::SAddO { self.x.not1(d1) } else { d1 };
                            let d2 = self.x.bin(Bop::Xor, s1, sr);
                            let o = self.x.and1(same, d2);
                            self.x.of_e(o)
                        }
                        _ => return Err(Stop::Incomplete("128-bit signed multiply overflow".into())),
                    }
                } else {
                    let w2x = if k == Intr::UMulO || k == Intr::SMulO { 2 * w } else { w + 1 };
                    let signed = matches!(k, Intr::SAddO | Intr::SSubO | Intr::SMulO);
                    if p.e == 0 && q.e == 0 {
                        let v = if signed {
                            let (x, y) = (sext64(p.c, w) as i128, sext64(q.c, w) as i128);
                            let t = match op {
                                Bop::Add => x + y,
                                Bop::Sub => x - y,
                                _ => x * y,
                            };
                            t != sext128(t as u128 & mask128(w), w)
                        } else {
                            let (x, y) = (p.c as i128, q.c as i128);
                            match op {
                                Bop::Add => x + y > mask128(w) as i128,
                                Bop::Sub => x < y,
                                _ => (p.c as u128 * q.c as u128) > mask128(w),
                            }
                        };
                        Val::c(v as u64)
                    } else if k == Intr::USubO {
                        self.x.vcmp(Pred::Ult, w, p, q)
                    } else if k == Intr::UMulO && (p.e == 0 || q.e == 0) {
                        let (sym, kc) = if q.e == 0 { (p, q.c) } else { (q, p.c) };
                        if kc == 0 {
                            Val::c(0)
                        } else {
                            self.x.vcmp(Pred::Ult, w, Val::c(mask64(w) / kc), sym)
                        }
                    } else {
                        let e1 = self.x.to_e(p, w);
                        let e2 = self.x.to_e(q, w);
                        let (e1, e2) = if signed {
                            (self.x.sext(e1, w2x), self.x.sext(e2, w2x))
                        } else {
                            (self.x.zext(e1, w2x), self.x.zext(e2, w2x))
                        };
                        let t = self.x.bin(op, e1, e2);
                        let lo = self.x.extract(t, 0, w);
                        let back = if signed { self.x.sext(lo, w2x) } else { self.x.zext(lo, w2x) };
                        let same = self.x.cmp(Pred::Eq, back, t);
                        let n = self.x.not1(same);
                        self.x.of_e(n)
                    }
                };
                fr.regs[d as usize] = r;
                fr.regs[d as usize + 1] = o;
                return Ok(());
            }
            Intr::UAddSat => {
                let (p, q) = (a(fr, 0), a(fr, 1));
                let r = self.x.vbin(Bop::Add, w, p, q);
                let o = self.x.vcmp(Pred::Ult, w, r, p);
                self.x.vite(w, o, Val::c(mask64(w)), r)
            }
            Intr::USubSat => {
                let (p, q) = (a(fr, 0), a(fr, 1));
                let r = self.x.vbin(Bop::Sub, w, p, q);
                let o = self.x.vcmp(Pred::Ult, w, p, q);
                self.x.vite(w, o, Val::c(0), r)
            }
            Intr::ReduceOr | Intr::ReduceAnd | Intr::ReduceAdd | Intr::ReduceXor | Intr::ReduceUMax => {
                let mut acc = a(fr, 0);
                for i in 1..args.len() {
                    let v = a(fr, i);
                    acc = match k {
                        Intr::ReduceOr => self.x.vbin(Bop::Or, w, acc, v),
                        Intr::ReduceAnd => self.x.vbin(Bop::And, w, acc, v),
                        Intr::ReduceAdd => self.x.vbin(Bop::Add, w, acc, v),
                        Intr::ReduceXor => self.x.vbin(Bop::Xor, w, acc, v),
                        _ => {
                            let c = self.x.vcmp(Pred::Ult, w, acc, v);
                            self.x.vite(w, c, v, acc)
                        }
                    };
                }
                acc
            }
            _ => return Err(Stop::Incomplete(format!("intrinsic {:?}", k))),
        };
        fr.regs[d as usize] = r;
        Ok(())
    }

    fn new_var(&mut self, st: &mut State, w: u32) -> E {
        let code = match w {
            8 => 0,
            32 => 1,
            _ => 2,
        };
        let id = st.nvars * 4 + code;
        st.nvars += 1;
        st.doms.push([u64::MAX; 4]);
        st.taint.push(w != 8);
        st.model.push(0);
        st.inputs.push(Input::Sym(id, w as u16));
        self.x.var(id, w)
    }

    fn ext(&mut self, st: &mut State, fr: &mut Frame, e: Ext, fi: u32, a: &[Val]) -> Result<Val, Stop> {
        macro_rules! c {
            ($i:expr) => {
                self.conc(st, fr, a[$i], 64)?
            };
        }
        Ok(match e {
            Ext::Nop => Val::c(0),
            Ext::Zero => Val::c(0),
            Ext::KeyCreate => {
                let p = c!(0);
                let k = st.keys;
                st.keys += 1;
                st.mem.store(&mut self.x, p, Val::c(k), 4)?;
                Val::c(0)
            }
            Ext::SetSpecific => {
                let (k, v, t) = (c!(0) & 0xffff_ffff, c!(1), st.cur);
                st.specific.retain(|s| (s.0, s.1) != (t, k));
                st.specific.push((t, k, v));
                Val::c(0)
            }
            Ext::GetSpecific => {
                let (k, t) = (c!(0) & 0xffff_ffff, st.cur);
                Val::c(st.specific.iter().find(|s| (s.0, s.1) == (t, k)).map_or(0, |s| s.2))
            }
            Ext::MinusOne(w) => {
                st.mem.store(&mut self.x, self.errno, Val::c(2), 4)?;
                Val::c(u64::MAX >> (64 - w))
            }
            Ext::RustAlloc | Ext::RustAllocZ => {
                let (n, al) = (c!(0), c!(1));
                if n > 1 << 28 {
                    return Ok(Val::c(0));
                }
                let p = st.mem.alloc(n, al);
                if e == Ext::RustAllocZ {
                    st.mem.fill(p, Val::c(0), n)?;
                }
                Val::c(p)
            }
            Ext::RustRealloc => {
                let (p, old, al, n) = (c!(0), c!(1), c!(2), c!(3));
                if n > 1 << 28 {
                    return Ok(Val::c(0));
                }
                let q = st.mem.alloc(n, al);
                st.mem.copy(q, p, old.min(n))?;
                st.mem.free(p, old);
                Val::c(q)
            }
            Ext::RustDealloc => {
                let (p, n) = (c!(0), c!(1));
                st.mem.free(p, n);
                Val::c(0)
            }
            Ext::Malloc | Ext::Calloc => {
                let n = if e == Ext::Malloc { c!(0) } else { c!(0) * c!(1) };
                let p = st.mem.alloc(n + 16, 16);
                st.mem.store(&mut self.x, p, Val::c(n), 8)?;
                if e == Ext::Calloc {
                    st.mem.fill(p + 16, Val::c(0), n)?;
                }
                Val::c(p + 16)
            }
            Ext::Realloc => {
                let (p, n) = (c!(0), c!(1));
                let q = st.mem.alloc(n + 16, 16);
                st.mem.store(&mut self.x, q, Val::c(n), 8)?;
                if p != 0 {
                    let old = st.mem.load(&mut self.x, p - 16, 8)?.c;
                    st.mem.copy(q + 16, p, old.min(n))?;
                }
                Val::c(q + 16)
            }
            Ext::Free => Val::c(0),
            Ext::PosixMemalign => {
                let (pp, al, n) = (c!(0), c!(1), c!(2));
                let p = st.mem.alloc(n + 16 + al, al);
                st.mem.store(&mut self.x, pp, Val::c(p), 8)?;
                Val::c(0)
            }
            Ext::Memcmp | Ext::Bcmp => {
                let n = c!(2);
                if n == 0 {
                    return Ok(Val::c(0));
                }
                let (p, q) = (c!(0), c!(1));
                let (d1, s1) = st.mem.read(p, n)?;
                let (d2, s2) = st.mem.read(q, n)?;
                if s1.is_none() && s2.is_none() {
                    let r: i32 = match d1.cmp(&d2) {
                        std::cmp::Ordering::Less => -1,
                        std::cmp::Ordering::Equal => 0,
                        std::cmp::Ordering::Greater => 1,
                    };
                    return Ok(Val::c(r as u32 as u64));
                }
                let at = |d: &Vec<u8>, s: &Option<Vec<E>>, i: usize| -> Val {
                    match s {
                        Some(v) if v[i] != 0 => Val { e: v[i], c: 0 },
                        _ => Val::c(d[i] as u64),
                    }
                };
                let mut acc = Val::c(0);
                for i in (0..n as usize).rev() {
                    let (u, v) = (at(&d1, &s1, i), at(&d2, &s2, i));
                    let eq = self.x.vcmp(Pred::Eq, 8, u, v);
                    let diff = if e == Ext::Bcmp {
                        Val::c(1)
                    } else {
                        let lt = self.x.vcmp(Pred::Ult, 8, u, v);
                        self.x.vite(32, lt, Val::c(0xffff_ffff), Val::c(1))
                    };
                    acc = self.x.vite(32, eq, acc, diff);
                }
                acc
            }
            Ext::Strerror => {
                // some text: what it says is not known
                let p = c!(1);
                st.mem.write_bytes(p, b"e\0")?;
                Val::c(0)
            }
            Ext::Strlen => {
                let p = c!(0);
                let mut n = 0;
                loop {
                    let b = st.mem.byte(p + n)?;
                    let b = self.conc(st, fr, b, 8)?;
                    if b == 0 {
                        break;
                    }
                    n += 1;
                }
                Val::c(n)
            }
            Ext::Write => {
                let (fd, p, n) = (c!(0), c!(1), c!(2));
                if fd == 1 || fd == 2 {
                    for k in 0..n {
                        let b = st.mem.byte(p + k)?;
                        st.out.push(b);
                    }
                }
                Val::c(n)
            }
            Ext::Writev => {
                let (fd, v, cnt) = (c!(0), c!(1), c!(2));
                let mut total = 0;
                for i in 0..cnt {
                    let p = st.mem.load(&mut self.x, v + 16 * i, 8)?;
                    let n = st.mem.load(&mut self.x, v + 16 * i + 8, 8)?;
                    let p = self.conc(st, fr, p, 64)?;
                    let n = self.conc(st, fr, n, 64)?;
                    if fd == 1 || fd == 2 {
                        for k in 0..n {
                            let b = st.mem.byte(p + k)?;
                            st.out.push(b);
                        }
                    }
                    total += n;
                }
                Val::c(total)
            }
            Ext::Errno => Val::c(self.errno),
            Ext::Getrandom => {
                let (p, n) = (c!(0), c!(1));
                for k in 0..n {
                    st.mem.set_byte(p + k, Val::c((11 + 37 * k + 101 * self.o.seed) & 0xff))?;
                }
                Val::c(n)
            }
            Ext::Syscall => {
                let nr = c!(0);
                if nr == 318 {
                    let (p, n) = (c!(1), c!(2));
                    for k in 0..n {
                        st.mem.set_byte(p + k, Val::c((11 + 37 * k + 101 * self.o.seed) & 0xff))?;
                    }
                    return Ok(Val::c(n));
                }
                if nr == 202 {
                    let (at, op) = (c!(1), c!(2) & 0x7f);
                    if op == 0 || op == 9 {
                        let v = st.mem.load(&mut self.x, at, 4)?;
                        if self.conc(st, fr, v, 32)? != c!(3) & 0xffff_ffff {
                            st.mem.store(&mut self.x, self.errno, Val::c(11), 4)?;
                            return Ok(Val::c(u64::MAX));
                        }
                        if st.threads.is_empty() {
                            // a wait would block for ever in a single thread
                            return Err(Stop::Bad("deadlock: futex wait".into()));
                        }
                        let cur = st.cur;
                        st.threads[cur].ts = Ts::Futex(at);
                        return Ok(Val::c(0));
                    }
                    let mut woken = 0;
                    if op == 1 || op == 10 {
                        let n = c!(3) & 0xffff_ffff;
                        for t in st.threads.iter_mut() {
                            if t.ts == Ts::Futex(at) && woken < n {
                                t.ts = Ts::Ready;
                                woken += 1;
                            }
                        }
                    }
                    return Ok(Val::c(woken));
                }
                st.mem.store(&mut self.x, self.errno, Val::c(38), 4)?;
                Val::c(u64::MAX)
            }
            Ext::Getenv | Ext::Yield => Val::c(0),
            Ext::SymReps => Val::c(1),
            Ext::SymThreads => unreachable!(),
            Ext::Fp(f, w) => {
                let mut v = vec![];
                for &x in a {
                    v.push(self.conc(st, fr, x, w as u32)?);
                }
                Val::c(f.eval(w, w, &v))
            }
            Ext::SymCpus => {
                st.cpus = c!(0);
                Val::c(0)
            }
            Ext::Affinity => {
                if st.cpus == 0 {
                    st.mem.store(&mut self.x, self.errno, Val::c(38), 4)?;
                    return Ok(Val::c(u32::MAX as u64));
                }
                let (n, p) = (c!(1), c!(2));
                st.mem.fill(p, Val::c(0), n)?;
                st.mem.store(&mut self.x, p, Val::c((1 << st.cpus) - 1), 8)?;
                Val::c(0)
            }
            Ext::SymFile => {
                let (p, n) = (c!(0), c!(1));
                let mut v = vec![];
                for k in 0..n {
                    v.push(st.mem.byte(p + k)?);
                }
                st.file = Some(Rc::new(v));
                Val::c(0)
            }
            Ext::Read => {
                let (fd, p, n) = (c!(0), c!(1), c!(2));
                let i = fd.wrapping_sub(1000) as usize;
                match (st.file.clone(), st.fds.get(i).copied()) {
                    (Some(f), Some(at)) => {
                        let k = n.min(f.len() as u64 - at.min(f.len() as u64));
                        for j in 0..k {
                            st.mem.set_byte(p + j, f[(at + j) as usize])?;
                        }
                        st.fds[i] += k;
                        Val::c(k)
                    }
                    _ => Val::c(0),
                }
            }
            Ext::Lseek => {
                let (fd, off, wh) = (c!(0), c!(1), c!(2));
                let i = fd.wrapping_sub(1000) as usize;
                match (st.file.clone(), st.fds.get(i).copied()) {
                    (Some(f), Some(at)) => {
                        let b = [0, at, f.len() as u64][wh.min(2) as usize];
                        st.fds[i] = b.wrapping_add(off);
                        Val::c(st.fds[i])
                    }
                    _ => {
                        st.mem.store(&mut self.x, self.errno, Val::c(29), 4)?;
                        Val::c(u64::MAX)
                    }
                }
            }
            Ext::Open => {
                if st.file.is_some() {
                    let p = c!(0);
                    let mut name = vec![];
                    loop {
                        let b = st.mem.byte(p + name.len() as u64)?;
                        let b = self.conc(st, fr, b, 8)? as u8;
                        if b == 0 {
                            break;
                        }
                        name.push(b);
                    }
                    if name == b"sym-file" {
                        st.fds.push(0);
                        return Ok(Val::c(999 + st.fds.len() as u64));
                    }
                }
                st.mem.store(&mut self.x, self.errno, Val::c(2), 4)?;
                Val::c(u32::MAX as u64)
            }
            Ext::Abort => {
                self.violation(st, Some(fr), "crash", "abort".into());
                return Err(Stop::Dead);
            }
            Ext::SymBytes => {
                let (p, n) = (c!(0), c!(1));
                for k in 0..n {
                    let v = self.new_var(st, 8);
                    st.mem.set_byte(p + k, Val { e: v, c: 0 })?;
                }
                Val::c(0)
            }
            Ext::SymU32 => {
                let v = self.new_var(st, 32);
                Val { e: v, c: 0 }
            }
            Ext::SymU64 => {
                let v = self.new_var(st, 64);
                Val { e: v, c: 0 }
            }
            Ext::SymRange => {
                let (lo, hi) = (c!(0), c!(1));
                if hi < lo {
                    return Err(Stop::Dead);
                }
                fr.pc += 1;
                // forked copies continue after the call with their own value
                let ret = match &fr.f.code[fr.pc as usize - 1] {
                    Inst::Call { d, after, .. } => {
                        if after.is_some() {
                            return Err(Stop::Incomplete("sym_range through invoke".into()));
                        }
                        *d
                    }
                    _ => unreachable!(),
                };
                for v in (lo + 1..=hi).rev() {
                    let mut s = self.fork(st, fr);
                    s.inputs.push(Input::Fixed(v, 64));
                    s.frames.last_mut().unwrap().regs[ret as usize] = Val::c(v);
                    self.work.push_back(s);
                }
                fr.pc -= 1;
                st.inputs.push(Input::Fixed(lo, 64));
                Val::c(lo)
            }
            Ext::SymAssume => {
                let v = self.x.vextract(a[0], 8, 0, 1);
                if v.e == 0 {
                    if v.c == 0 {
                        self.rep.infeasible += 1;
                        return Err(Stop::Dead);
                    }
                } else {
                    match self.feasible(st, v.e)? {
                        None => {
                            self.rep.infeasible += 1;
                            return Err(Stop::Dead);
                        }
                        Some(h) => self.add(st, v.e, &h),
                    }
                }
                Val::c(0)
            }
            Ext::SymAssert => {
                let v = self.x.vextract(a[0], 8, 0, 1);
                let id = c!(1);
                self.rep.asserts += 1;
                if v.e == 0 {
                    if v.c == 0 {
                        self.violation(st, Some(fr), "assert", format!("assertion {} fails", id));
                        return Err(Stop::Dead);
                    }
                } else {
                    // always decided by the solver
                    let ne = self.x.not1(v.e);
                    self.rep.asserts_solver += 1;
                    let fe = self.x.konst(0, 1);
                    let cs = self.prepare(st, ne).unwrap_or_else(|| vec![fe]);
                    let verdict = self.z.check(&self.x, &cs);
                    // the same question without any simplification, now and then
                    if self.o.confirm_every > 0 && (self.rep.asserts_solver - 1) % self.o.confirm_every == 0 {
                        let raw = self.slice(st, ne);
                        let v2 = self.z.check_short(&self.x, &raw);
                        match (&verdict, &v2) {
                            (Res::Sat(_), Res::Unsat) | (Res::Unsat, Res::Sat(_)) => {
                                return Err(Stop::Incomplete("engine error: simplified and raw query disagree".into()))
                            }
                            (_, Res::Unknown) => {}
                            _ => self.rep.confirmed += 1,
                        }
                    }
                    match verdict {
                        Res::Sat(m) => {
                            let mut s = st.clone();
                            for (q, val) in &m {
                                s.model[(*q >> 2) as usize] = *val;
                            }
                            self.violation(&s, Some(fr), "assert", format!("assertion {} fails", id));
                            // go on with the inputs for which it holds, if any
                            match self.feasible(st, v.e)? {
                                Some(h) => self.add(st, v.e, &h),
                                None => return Err(Stop::Dead),
                            }
                        }
                        Res::Unsat => {}
                        Res::Unknown => return Err(Stop::Incomplete(format!("solver gave up on assertion {}", id))),
                    }
                }
                Val::c(0)
            }
            Ext::SymFail => {
                let id = c!(0);
                self.rep.asserts += 1;
                // the path condition of a failing path goes to the solver before it is reported
                match self.z.check(&self.x, &st.pc) {
                    Res::Unsat => return Err(Stop::Incomplete("engine error: failing path is infeasible".into())),
                    _ => {}
                }
                self.violation(st, Some(fr), "assert", format!("assertion {} fails", id));
                return Err(Stop::Dead);
            }
            Ext::SymCover => {
                let id = c!(0);
                st.cover |= 1 << (id & 63);
                Val::c(0)
            }
            Ext::SymObserve => {
                st.obs.push((a[0], 64));
                Val::c(0)
            }
            Ext::SymConc => Val::c(c!(0)),
            Ext::SymIte => {
                let cnd = self.x.vextract(a[0], 8, 0, 1);
                self.x.vite(64, cnd, a[1], a[2])
            }
            Ext::SymOutLen => Val::c(st.out.len() as u64),
            Ext::SymOutTake => {
                let (p, n) = (c!(0), c!(1));
                let out = std::mem::take(&mut st.out);
                for (k, b) in out.iter().enumerate().take(n as usize) {
                    st.mem.set_byte(p + k as u64, *b)?;
                }
                Val::c(out.len() as u64)
            }
            Ext::Unknown => {
                let n = self.m.funcs[fi as usize].name.clone();
                *self.unknown_ext.entry(n.clone()).or_insert(0) += 1;
                return Err(Stop::Incomplete(format!("external function {}", n)));
            }
        })
    }
}
