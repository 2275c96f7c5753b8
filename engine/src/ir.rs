//! Parser for the textual LLVM IR produced by `llvm-dis` (LLVM 23, opaque
//! pointers).  Function bodies are parsed on first use.
use crate::expr::*;
use std::cell::RefCell;
use std::collections::HashMap;
use std::rc::Rc;

#[derive(Clone, PartialEq, Debug)]
pub enum Ty {
    Void,
    Int(u16),
    Ptr,
    Float(u16),
    Arr(u64, Rc<Ty>),
    Struct(Rc<Vec<Ty>>, bool),
    Vec(u64, Rc<Ty>),
    Other,
}

fn align_up(x: u64, a: u64) -> u64 {
    x.div_ceil(a) * a
}

impl Ty {
    pub fn align(&self) -> u64 {
        match self {
            Ty::Void | Ty::Other => 1,
            Ty::Int(w) => match *w {
                0..=8 => 1,
                9..=16 => 2,
                17..=32 => 4,
                33..=64 => 8,
                _ => 16,
            },
            Ty::Ptr => 8,
            Ty::Float(w) => (*w as u64 / 8).min(16),
            Ty::Arr(_, t) => t.align(),
            Ty::Struct(ts, packed) => {
                if *packed {
                    1
                } else {
                    ts.iter().map(|t| t.align()).max().unwrap_or(1)
                }
            }
            Ty::Vec(..) => self.store_size().next_power_of_two().max(1),
        }
    }
    /// number of bytes written by a store
    pub fn store_size(&self) -> u64 {
        match self {
            Ty::Void | Ty::Other => 0,
            Ty::Int(w) => (*w as u64).div_ceil(8),
            Ty::Ptr => 8,
            Ty::Float(w) => *w as u64 / 8,
            Ty::Arr(n, t) => n * t.size(),
            Ty::Struct(..) => self.size(),
            Ty::Vec(n, t) => (n * t.bits()).div_ceil(8),
        }
    }
    pub fn bits(&self) -> u64 {
        match self {
            Ty::Int(w) => *w as u64,
            Ty::Vec(n, t) => n * t.bits(),
            t => t.store_size() * 8,
        }
    }
    /// allocation size (stride)
    pub fn size(&self) -> u64 {
        match self {
            Ty::Struct(ts, packed) => {
                let mut o = 0;
                for t in ts.iter() {
                    if !packed {
                        o = align_up(o, t.align());
                    }
                    o += t.size();
                }
                if *packed {
                    o
                } else {
                    align_up(o, self.align())
                }
            }
            Ty::Arr(n, t) => n * t.size(),
            t => align_up(t.store_size(), t.align()),
        }
    }
    pub fn field_offset(&self, i: usize) -> u64 {
        match self {
            Ty::Struct(ts, packed) => {
                let mut o = 0;
                for (k, t) in ts.iter().enumerate() {
                    if !packed {
                        o = align_up(o, t.align());
                    }
                    if k == i {
                        return o;
                    }
                    o += t.size();
                }
                panic!("field offset")
            }
            Ty::Arr(_, t) => i as u64 * t.size(),
            Ty::Vec(_, t) => i as u64 * t.store_size(),
            _ => panic!("field_offset of {self:?}"),
        }
    }
    pub fn field(&self, i: usize) -> Ty {
        match self {
            Ty::Struct(ts, _) => ts[i].clone(),
            Ty::Arr(_, t) | Ty::Vec(_, t) => (**t).clone(),
            _ => panic!("field of {self:?}"),
        }
    }
    pub fn nfields(&self) -> usize {
        match self {
            Ty::Struct(ts, _) => ts.len(),
            Ty::Arr(n, _) | Ty::Vec(n, _) => *n as usize,
            _ => panic!("nfields"),
        }
    }
    pub fn is_agg(&self) -> bool {
        matches!(self, Ty::Struct(..) | Ty::Arr(..) | Ty::Vec(..))
    }
    pub fn scalar_width(&self) -> Option<u16> {
        match self {
            Ty::Int(w) => Some(*w),
            Ty::Ptr => Some(64),
            Ty::Float(w) => Some(*w),
            _ => None,
        }
    }
}

#[derive(Clone, PartialEq, Debug)]
pub enum Val {
    S(E),
    Agg(Rc<Vec<Val>>),
}

impl Val {
    pub fn e(&self) -> E {
        match self {
            Val::S(e) => *e,
            _ => panic!("scalar expected, found {self:?}"),
        }
    }
}

#[derive(Clone, Debug)]
pub enum Opd {
    R(u32),
    C(Val),
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Pred {
    Eq,
    Ne,
    Ugt,
    Uge,
    Ult,
    Ule,
    Sgt,
    Sge,
    Slt,
    Sle,
}

#[derive(Clone, Debug)]
pub enum Callee {
    Fn(u32),
    Ind(Opd),
    Asm,
}

#[derive(Clone, Debug)]
pub enum Ins {
    Bin(Op, Ty, Opd, Opd),
    Icmp(Pred, Ty, Opd, Opd),
    /// kind: 't' trunc 'z' zext 's' sext 'b' bitcast/ptrtoint/inttoptr
    Cast(char, Ty, Opd, Ty),
    Load(Ty, Opd),
    Store(Ty, Opd, Opd),
    /// base, list of (index operand, stride) plus a constant offset
    Gep(Opd, Vec<(Opd, u16, u64)>, u64),
    Alloca(u64, u64),
    Select(Opd, Ty, Opd, Opd, bool),
    ExtractValue(Opd, Vec<u32>),
    InsertValue(Opd, Opd, Vec<u32>),
    ExtractElement(Opd, Opd),
    InsertElement(Opd, Opd, Opd),
    Shuffle(Opd, Opd, Vec<Option<u32>>),
    Freeze(Opd),
    Call { callee: Callee, args: Vec<Opd>, ret: Ty, noreturn: bool, normal: Option<u32> },
    Rmw(String, Ty, Opd, Opd),
    CmpXchg(Ty, Opd, Opd, Opd),
    Fence,
    Phi(Ty, Vec<(Opd, u32)>),
    Br(u32),
    CondBr(Opd, u32, u32),
    Switch(Opd, u32, Vec<(u128, u32)>),
    Ret(Option<Opd>),
    Unreachable,
    Unsupported(String),
}

#[derive(Clone, Debug)]
pub struct Inst {
    pub dst: u32, // u32::MAX = none
    pub dbg: u32,
    pub k: Ins,
}

pub const NOREG: u32 = u32::MAX;

pub struct Block {
    pub name: String,
    pub insts: Vec<Inst>,
    /// index of the first non-phi instruction
    pub first: usize,
}

pub struct Func {
    pub id: u32,
    pub name: String,
    pub params: Vec<u32>,
    pub nregs: usize,
    pub blocks: Vec<Block>,
    /// immediate post-dominator per block; blocks.len() is the virtual exit; usize::MAX none
    pub ipdom: Vec<usize>,
    pub cfg: Cfg,
}

/// control-flow graph without the paths that end in a panic
pub struct Cfg {
    /// successors; blocks.len() is the virtual exit
    pub succ: Vec<Vec<usize>>,
    /// reverse post order number; usize::MAX if unreachable
    pub rpo: Vec<usize>,
    /// the block reaches the exit
    pub live: Vec<bool>,
    /// loops: header and body (header included)
    pub loops: Vec<(usize, Vec<bool>)>,
}

fn make_cfg(blocks: &[Block]) -> Cfg {
    let n = blocks.len();
    let mut succ: Vec<Vec<usize>> = vec![vec![]; n + 1];
    for (i, b) in blocks.iter().enumerate() {
        if b.insts.iter().any(|x| matches!(x.k, Ins::Call { noreturn: true, .. })) {
            continue;
        }
        if let Some(Ins::Ret(_)) = b.insts.last().map(|i| &i.k) {
            succ[i].push(n);
        } else {
            succ[i] = successors(b).into_iter().map(|x| x as usize).collect();
        }
    }
    let mut pred: Vec<Vec<usize>> = vec![vec![]; n + 1];
    for (i, s) in succ.iter().enumerate() {
        for t in s {
            pred[*t].push(i);
        }
    }
    let mut live = vec![false; n + 1];
    live[n] = true;
    let mut work = vec![n];
    while let Some(b) = work.pop() {
        for &q in &pred[b] {
            if !live[q] {
                live[q] = true;
                work.push(q);
            }
        }
    }
    let mut order = vec![];
    let mut state = vec![0u8; n + 1];
    let mut back: Vec<(usize, usize)> = vec![];
    let mut stack = vec![(0usize, 0usize)];
    state[0] = 1;
    while let Some((b, k)) = stack.pop() {
        if k < succ[b].len() {
            stack.push((b, k + 1));
            let t = succ[b][k];
            if state[t] == 0 {
                state[t] = 1;
                stack.push((t, 0));
            } else if state[t] == 1 {
                back.push((b, t));
            }
        } else {
            state[b] = 2;
            order.push(b);
        }
    }
    let mut rpo = vec![usize::MAX; n + 1];
    for (i, b) in order.iter().rev().enumerate() {
        rpo[*b] = i;
    }
    let mut loops: Vec<(usize, Vec<bool>)> = vec![];
    for (u, h) in back {
        let at = match loops.iter().position(|l| l.0 == h) {
            Some(i) => i,
            None => {
                let mut body = vec![false; n + 1];
                body[h] = true;
                loops.push((h, body));
                loops.len() - 1
            }
        };
        let body = &mut loops[at].1;
        let mut work = vec![u];
        while let Some(b) = work.pop() {
            if !body[b] {
                body[b] = true;
                work.extend(pred[b].iter().copied());
            }
        }
    }
    Cfg { succ, rpo, live, loops }
}

impl Cfg {
    /// Where two of the targets of a branch in `bb` meet first, and the blocks
    /// from which that is still ahead.  The next iteration of a loop around `bb`
    /// ends the search.
    pub fn meet(&self, bb: usize, targets: &[usize]) -> Option<(usize, Vec<bool>)> {
        let n = self.succ.len();
        let around: Vec<&(usize, Vec<bool>)> = self.loops.iter().filter(|l| l.1[bb]).collect();
        let stop = |b: usize| around.iter().any(|l| l.0 == b);
        let mut count = vec![0u32; n];
        for &t in targets {
            let mut seen = vec![false; n];
            let mut work = vec![t];
            seen[t] = true;
            while let Some(b) = work.pop() {
                count[b] += 1;
                if stop(b) {
                    continue;
                }
                for &s in &self.succ[b] {
                    if !seen[s] {
                        seen[s] = true;
                        work.push(s);
                    }
                }
            }
        }
        let mut best: Option<((usize, bool, usize), usize)> = None;
        for b in 0..n - 1 {
            if count[b] < 2 || !self.live[b] {
                continue;
            }
            let common = around.iter().filter(|l| l.1[b]).count();
            let key = (around.len() - common, stop(b), self.rpo[b]);
            if best.map_or(true, |x| key < x.0) {
                best = Some((key, b));
            }
        }
        let j = best?.1;
        let mut ahead = vec![false; n];
        ahead[j] = true;
        let mut changed = true;
        while changed {
            changed = false;
            for b in 0..n - 1 {
                if !ahead[b] && !stop(b) && self.succ[b].iter().any(|s| ahead[*s]) {
                    ahead[b] = true;
                    changed = true;
                }
            }
        }
        Some((j, ahead))
    }
}

pub struct FnDecl {
    pub name: String,
    pub addr: u64,
    pub noreturn: bool,
    /// byte range of the definition (None = declaration)
    pub body: Option<(usize, usize)>,
    pub dbg: u32,
}

pub struct GlobalDef {
    pub name: String,
    pub addr: u64,
    pub size: u64,
    pub align: u64,
    pub ty: Ty,
    pub constant: bool,
    /// byte range of the initialiser text
    pub init: Option<(usize, usize)>,
}

pub struct Module {
    pub text: Rc<Vec<u8>>,
    pub fns: Vec<FnDecl>,
    pub fn_by_name: HashMap<String, u32>,
    pub fn_by_addr: HashMap<u64, u32>,
    pub globals: Vec<GlobalDef>,
    pub global_by_name: HashMap<String, u32>,
    pub global_by_addr: std::collections::BTreeMap<u64, u32>,
    aliases: HashMap<String, String>,
    named_types: HashMap<String, Ty>,
    noreturn_groups: std::collections::HashSet<u32>,
    md: HashMap<u32, (usize, usize)>,
    parsed: RefCell<HashMap<u32, Rc<Func>>>,
}

pub struct P<'a> {
    s: &'a [u8],
    i: usize,
}

impl<'a> P<'a> {
    fn new(s: &'a [u8]) -> Self {
        P { s, i: 0 }
    }
    fn ws(&mut self) {
        while self.i < self.s.len() && (self.s[self.i] as char).is_ascii_whitespace() {
            self.i += 1;
        }
    }
    fn peek(&mut self) -> u8 {
        self.ws();
        if self.i < self.s.len() {
            self.s[self.i]
        } else {
            0
        }
    }
    fn eat(&mut self, t: &str) -> bool {
        self.ws();
        let b = t.as_bytes();
        if self.s[self.i..].starts_with(b) {
            // whole word check
            let last = b[b.len() - 1];
            if last.is_ascii_alphanumeric() || last == b'_' {
                if let Some(&n) = self.s.get(self.i + b.len()) {
                    if n.is_ascii_alphanumeric() || n == b'_' || n == b'.' {
                        return false;
                    }
                }
            }
            self.i += b.len();
            true
        } else {
            false
        }
    }
    fn expect(&mut self, t: &str) {
        if !self.eat(t) {
            self.fail(&format!("expected `{t}`"));
        }
    }
    fn fail(&self, m: &str) -> ! {
        panic!("IR parse error: {m} at `{}` in `{}`", String::from_utf8_lossy(&self.s[self.i..(self.i + 120).min(self.s.len())]), String::from_utf8_lossy(&self.s[..200.min(self.s.len())]))
    }
    fn word(&mut self) -> &'a str {
        self.ws();
        let st = self.i;
        while self.i < self.s.len() {
            let c = self.s[self.i];
            if c.is_ascii_alphanumeric() || c == b'_' || c == b'.' {
                self.i += 1
            } else {
                break;
            }
        }
        std::str::from_utf8(&self.s[st..self.i]).unwrap()
    }
    fn peek_word(&mut self) -> &'a str {
        self.ws();
        let st = self.i;
        let w = self.word();
        self.i = st;
        w
    }
    fn num(&mut self) -> u64 {
        let w = self.word();
        w.parse().unwrap_or_else(|_| self.fail("number"))
    }
    /// name after a sigil (% or @), possibly quoted
    fn name(&mut self) -> String {
        if self.s[self.i] == b'"' {
            let st = self.i + 1;
            self.i += 1;
            while self.s[self.i] != b'"' {
                self.i += 1;
            }
            self.i += 1;
            return String::from_utf8_lossy(&self.s[st..self.i - 1]).into_owned();
        }
        let st = self.i;
        while self.i < self.s.len() {
            let c = self.s[self.i];
            if c.is_ascii_alphanumeric() || c == b'_' || c == b'.' || c == b'$' || c == b'-' {
                self.i += 1
            } else {
                break;
            }
        }
        String::from_utf8_lossy(&self.s[st..self.i]).into_owned()
    }
    fn skip_parens(&mut self) {
        // at '('
        let mut d = 0;
        loop {
            match self.s[self.i] {
                b'(' => d += 1,
                b')' => {
                    d -= 1;
                    if d == 0 {
                        self.i += 1;
                        return;
                    }
                }
                b'"' => {
                    self.i += 1;
                    while self.s[self.i] != b'"' {
                        self.i += 1;
                    }
                }
                _ => {}
            }
            self.i += 1;
        }
    }
    fn type_starts(&mut self) -> bool {
        match self.peek() {
            b'{' | b'<' | b'[' | b'%' => true,
            _ => {
                let w = self.peek_word();
                matches!(w, "void" | "ptr" | "float" | "double" | "half" | "fp128" | "x86_fp80" | "metadata" | "label" | "token")
                    || (w.len() > 1 && w.starts_with('i') && w[1..].bytes().all(|c| c.is_ascii_digit()))
            }
        }
    }
    fn skip_attrs_until(&mut self, mut stop: impl FnMut(&mut P<'a>) -> bool) {
        loop {
            if stop(self) {
                return;
            }
            let st = self.i;
            let w = self.word();
            if w.is_empty() {
                if self.peek() == b'"' {
                    // "key"="value"
                    self.name();
                    if self.eat("=") {
                        self.ws();
                        self.name();
                    }
                    continue;
                }
                if self.peek() == b'#' {
                    self.i += 1;
                    self.word();
                    continue;
                }
                self.i = st;
                self.fail("attribute");
            }
            if w == "align" || w == "addrspace" {
                if self.peek() != b'(' {
                    self.num();
                    continue;
                }
            }
            if self.i < self.s.len() && self.s[self.i] == b'(' {
                self.skip_parens();
            }
        }
    }
}

const VAL_WORDS: &[&str] = &[
    "true", "false", "null", "undef", "poison", "zeroinitializer", "none", "c", "getelementptr", "ptrtoint", "inttoptr", "add", "sub", "xor", "trunc",
    "bitcast", "splat", "dso_local_equivalent", "blockaddress", "ptrtoaddr", "mul",
];

impl Module {
    pub fn load(path: &str) -> Module {
        let text = Rc::new(std::fs::read(path).unwrap_or_else(|e| panic!("{path}: {e}")));
        let mut m = Module {
            text: text.clone(),
            fns: vec![],
            fn_by_name: HashMap::new(),
            fn_by_addr: HashMap::new(),
            globals: vec![],
            global_by_name: HashMap::new(),
            global_by_addr: Default::default(),
            aliases: HashMap::new(),
            named_types: HashMap::new(),
            noreturn_groups: Default::default(),
            md: HashMap::new(),
            parsed: RefCell::new(HashMap::new()),
        };
        let t = &text[..];
        // pass 1: lines
        let mut pos = 0;
        let mut glines: Vec<(usize, usize)> = vec![];
        let mut fheads: Vec<(usize, usize, usize)> = vec![]; // head start, head end, body end
        while pos < t.len() {
            let end = memchr(b'\n', &t[pos..]).map(|k| pos + k).unwrap_or(t.len());
            let line = &t[pos..end];
            let next = end + 1;
            if line.starts_with(b"define ") {
                // body until a line "}"
                let mut q = next;
                loop {
                    let e = memchr(b'\n', &t[q..]).map(|k| q + k).unwrap_or(t.len());
                    if &t[q..e] == b"}" {
                        fheads.push((pos, end, q));
                        pos = e + 1;
                        break;
                    }
                    q = e + 1;
                }
                continue;
            } else if line.starts_with(b"declare ") {
                fheads.push((pos, end, 0));
            } else if line.starts_with(b"@") {
                glines.push((pos, end));
            } else if line.starts_with(b"%") {
                let mut p = P::new(line);
                p.i = 1;
                let n = p.name();
                p.expect("=");
                p.expect("type");
                let ty = m.ty(&mut p);
                m.named_types.insert(n, ty);
            } else if line.starts_with(b"!") && line.len() > 1 && line[1].is_ascii_digit() {
                let mut p = P::new(line);
                p.i = 1;
                let id = p.num() as u32;
                m.md.insert(id, (pos, end));
            } else if line.starts_with(b"attributes #") {
                let mut p = P::new(line);
                p.i = 12;
                let id = p.num() as u32;
                let s = String::from_utf8_lossy(line);
                if s.split(|c: char| !c.is_ascii_alphanumeric() && c != '_').any(|w| w == "noreturn") {
                    m.noreturn_groups.insert(id);
                }
            }
            pos = next;
        }
        // functions
        for (hs, he, body_end) in fheads {
            let line = &t[hs..he];
            let at = memchr(b'@', line).expect("fn name");
            let mut p = P::new(line);
            p.i = at + 1;
            let name = p.name();
            // attribute groups after the closing paren
            p.ws();
            p.skip_parens();
            let tail = String::from_utf8_lossy(&line[p.i..]).into_owned();
            let mut noreturn = tail.split_whitespace().any(|w| w == "noreturn");
            let mut dbg = 0;
            for w in tail.split_whitespace() {
                if let Some(g) = w.strip_prefix('#') {
                    if let Ok(g) = g.parse::<u32>() {
                        noreturn |= m.noreturn_groups.contains(&g);
                    }
                }
            }
            if let Some(k) = tail.find("!dbg !") {
                let d: String = tail[k + 6..].chars().take_while(|c| c.is_ascii_digit()).collect();
                dbg = d.parse().unwrap_or(0);
            }
            let id = m.fns.len() as u32;
            let addr = 0x1000_0000 + 16 * id as u64;
            m.fn_by_name.insert(name.clone(), id);
            m.fn_by_addr.insert(addr, id);
            m.fns.push(FnDecl { name, addr, noreturn, body: if body_end > 0 { Some((hs, body_end)) } else { None }, dbg });
        }
        // globals
        let mut addr = 0x2000_0000u64;
        for (gs, ge) in glines {
            let line = &t[gs..ge];
            let mut p = P::new(line);
            p.i = 1;
            let name = p.name();
            p.expect("=");
            let mut constant = false;
            let mut is_alias = false;
            let mut external = false;
            loop {
                let w = p.peek_word();
                match w {
                    "global" => {
                        p.word();
                        break;
                    }
                    "constant" => {
                        constant = true;
                        p.word();
                        break;
                    }
                    "alias" | "ifunc" => {
                        is_alias = true;
                        p.word();
                        break;
                    }
                    "external" | "extern_weak" => {
                        external = true;
                        p.word();
                    }
                    "" => p.fail("global"),
                    _ => {
                        p.word();
                        if p.s[p.i] == b'(' {
                            p.skip_parens();
                        }
                    }
                }
            }
            if is_alias {
                // alias <ty>, ptr @target
                if let Some(k) = line[p.i..].iter().position(|c| *c == b'@') {
                    p.i += k + 1;
                    let target = p.name();
                    m.aliases.insert(name, target);
                }
                continue;
            }
            let ty = m.ty(&mut p);
            let start = gs + p.i;
            // strip metadata / align
            let mut align = ty.align();
            let s = String::from_utf8_lossy(line);
            if let Some(k) = s.rfind(", align ") {
                let d: String = s[k + 8..].chars().take_while(|c| c.is_ascii_digit()).collect();
                align = d.parse().unwrap_or(align);
            }
            let size = ty.size();
            addr = align_up(addr, align.max(16)) + 16;
            addr = align_up(addr, align.max(16));
            let id = m.globals.len() as u32;
            m.global_by_name.insert(name.clone(), id);
            m.global_by_addr.insert(addr, id);
            m.globals.push(GlobalDef { name, addr, size, align, ty, constant, init: if external { None } else { Some((start, ge)) } });
            addr += size.max(1) + 16;
        }
        m
    }

    pub fn fn_id(&self, name: &str) -> Option<u32> {
        let mut n = name;
        for _ in 0..8 {
            if let Some(i) = self.fn_by_name.get(n) {
                return Some(*i);
            }
            match self.aliases.get(n) {
                Some(t) => n = t,
                None => return None,
            }
        }
        None
    }

    fn sym_addr(&self, name: &str) -> u64 {
        let mut n = name;
        for _ in 0..8 {
            if let Some(i) = self.fn_by_name.get(n) {
                return self.fns[*i as usize].addr;
            }
            if let Some(i) = self.global_by_name.get(n) {
                return self.globals[*i as usize].addr;
            }
            match self.aliases.get(n) {
                Some(t) => n = t,
                None => break,
            }
        }
        panic!("unknown symbol @{name}")
    }

    fn ty(&self, p: &mut P) -> Ty {
        match p.peek() {
            b'{' => {
                p.i += 1;
                let v = self.ty_list(p, "}");
                Ty::Struct(Rc::new(v), false)
            }
            b'<' => {
                p.i += 1;
                if p.peek() == b'{' {
                    p.i += 1;
                    let v = self.ty_list(p, "}");
                    p.expect(">");
                    Ty::Struct(Rc::new(v), true)
                } else {
                    let n = p.num();
                    p.expect("x");
                    let t = self.ty(p);
                    p.expect(">");
                    Ty::Vec(n, Rc::new(t))
                }
            }
            b'[' => {
                p.i += 1;
                let n = p.num();
                p.expect("x");
                let t = self.ty(p);
                p.expect("]");
                Ty::Arr(n, Rc::new(t))
            }
            b'%' => {
                p.i += 1;
                let n = p.name();
                self.named_types.get(&n).cloned().unwrap_or(Ty::Other)
            }
            _ => {
                let w = p.word();
                match w {
                    "void" => Ty::Void,
                    "ptr" => {
                        if p.peek_word() == "addrspace" {
                            p.word();
                            p.ws();
                            p.skip_parens();
                        }
                        Ty::Ptr
                    }
                    "half" => Ty::Float(16),
                    "float" => Ty::Float(32),
                    "double" => Ty::Float(64),
                    "fp128" | "x86_fp80" => Ty::Float(128),
                    "metadata" | "label" | "token" | "opaque" => Ty::Other,
                    _ if w.starts_with('i') => Ty::Int(w[1..].parse().unwrap_or_else(|_| p.fail("type"))),
                    _ => p.fail("type"),
                }
            }
        }
    }
    fn ty_list(&self, p: &mut P, close: &str) -> Vec<Ty> {
        let mut v = vec![];
        if p.eat(close) {
            return v;
        }
        loop {
            v.push(self.ty(p));
            if p.eat(close) {
                return v;
            }
            p.expect(",");
        }
    }

    pub fn zero(&self, c: &mut Ctx, ty: &Ty) -> Val {
        match ty {
            Ty::Int(w) => Val::S(c.cst(0, *w)),
            Ty::Ptr => Val::S(c.cst(0, 64)),
            Ty::Float(w) => Val::S(c.cst(0, *w)),
            Ty::Struct(ts, _) => Val::Agg(Rc::new(ts.iter().map(|t| self.zero(c, t)).collect())),
            Ty::Arr(n, t) | Ty::Vec(n, t) => {
                let z = self.zero(c, t);
                Val::Agg(Rc::new(vec![z; *n as usize]))
            }
            _ => Val::S(c.cst(0, 1)),
        }
    }

    /// parse a constant of type `ty`
    fn constant(&self, c: &mut Ctx, p: &mut P, ty: &Ty) -> Val {
        let ch = p.peek();
        if ch == b'@' {
            p.i += 1;
            let n = p.name();
            let a = self.sym_addr(&n);
            return Val::S(c.cst(a as u128, 64));
        }
        if ch == b'-' || ch.is_ascii_digit() {
            let neg = ch == b'-';
            if neg {
                p.i += 1;
            }
            let w = p.word();
            if let Some(h) = w.strip_prefix("0x") {
                // float constant
                let h = h.trim_start_matches(|c: char| c.is_ascii_uppercase() && !c.is_ascii_hexdigit());
                let v = u128::from_str_radix(h, 16).unwrap_or(0);
                return Val::S(c.cst(v, ty.scalar_width().unwrap()));
            }
            if w.contains('.') {
                // decimal float: skip exponent
                if p.i < p.s.len() && (p.s[p.i] == b'+' || p.s[p.i] == b'-') {
                    p.i += 1;
                    p.word();
                }
                let d: f64 = w.trim_end_matches('e').parse().unwrap_or(0.0);
                return Val::S(c.cst(d.to_bits() as u128, ty.scalar_width().unwrap()));
            }
            let v: u128 = w.parse().unwrap_or_else(|_| p.fail("int"));
            let v = if neg { (v as i128).wrapping_neg() as u128 } else { v };
            return Val::S(c.cst(v, ty.scalar_width().unwrap_or_else(|| p.fail("int type"))));
        }
        match ch {
            b'{' => {
                p.i += 1;
                return self.agg_const(c, p, "}");
            }
            b'[' => {
                p.i += 1;
                return self.agg_const(c, p, "]");
            }
            b'<' => {
                p.i += 1;
                if p.peek() == b'{' {
                    p.i += 1;
                    let v = self.agg_const(c, p, "}");
                    p.expect(">");
                    return v;
                }
                return self.agg_const(c, p, ">");
            }
            _ => {}
        }
        let w = p.word();
        match w {
            "true" => Val::S(c.tru),
            "false" => Val::S(c.fals),
            "null" => Val::S(c.cst(0, 64)),
            "undef" | "poison" | "zeroinitializer" | "none" => self.zero(c, ty),
            "c" => {
                let b = self.cstring(p);
                Val::Agg(Rc::new(b.iter().map(|x| Val::S(c.cst(*x as u128, 8))).collect()))
            }
            "splat" => {
                p.expect("(");
                let t = self.ty(p);
                let v = self.constant(c, p, &t);
                p.expect(")");
                let n = ty.nfields();
                Val::Agg(Rc::new(vec![v; n]))
            }
            "ptrtoint" | "inttoptr" | "bitcast" | "trunc" | "ptrtoaddr" => {
                p.expect("(");
                let t = self.ty(p);
                let v = self.constant(c, p, &t);
                p.expect("to");
                let t2 = self.ty(p);
                p.expect(")");
                let e = v.e();
                let w2 = t2.scalar_width().unwrap();
                Val::S(c.resize(e, w2))
            }
            "add" | "sub" | "xor" | "mul" => {
                while p.peek() != b'(' {
                    p.word();
                }
                p.expect("(");
                let t = self.ty(p);
                let a = self.constant(c, p, &t).e();
                p.expect(",");
                let t2 = self.ty(p);
                let b = self.constant(c, p, &t2).e();
                p.expect(")");
                let op = match w {
                    "add" => Op::Add,
                    "sub" => Op::Sub,
                    "mul" => Op::Mul,
                    _ => Op::Xor,
                };
                Val::S(c.bin(op, a, b))
            }
            "getelementptr" => {
                while p.peek() != b'(' {
                    p.word();
                    if p.i < p.s.len() && p.s[p.i] == b'(' && p.s[..p.i].ends_with(b"inrange") {
                        p.skip_parens();
                    }
                }
                p.expect("(");
                let t = self.ty(p);
                p.expect(",");
                let pt = self.ty(p);
                let base = self.constant(c, p, &pt).e();
                let mut idx = vec![];
                while p.eat(",") {
                    let it = self.ty(p);
                    let v = self.constant(c, p, &it).e();
                    let w = c.w(v);
                    idx.push(sext_val(c.as_const(v).unwrap(), w) as i64);
                }
                p.expect(")");
                let mut off = 0i64;
                let mut cur = t;
                for (k, i) in idx.iter().enumerate() {
                    if k == 0 {
                        off += i * cur.size() as i64;
                    } else {
                        off += cur.field_offset(*i as usize) as i64;
                        cur = cur.field(*i as usize);
                    }
                }
                let o = c.cst(off as i128 as u128, 64);
                Val::S(c.add(base, o))
            }
            _ => p.fail("constant"),
        }
    }
    fn agg_const(&self, c: &mut Ctx, p: &mut P, close: &str) -> Val {
        let mut v = vec![];
        if p.eat(close) {
            return Val::Agg(Rc::new(v));
        }
        loop {
            let t = self.ty(p);
            v.push(self.constant(c, p, &t));
            if p.eat(close) {
                return Val::Agg(Rc::new(v));
            }
            p.expect(",");
        }
    }
    fn cstring(&self, p: &mut P) -> Vec<u8> {
        assert!(p.s[p.i] == b'"');
        p.i += 1;
        let mut v = vec![];
        loop {
            match p.s[p.i] {
                b'"' => {
                    p.i += 1;
                    return v;
                }
                b'\\' => {
                    let h = std::str::from_utf8(&p.s[p.i + 1..p.i + 3]).unwrap();
                    v.push(u8::from_str_radix(h, 16).unwrap());
                    p.i += 3;
                }
                c => {
                    v.push(c);
                    p.i += 1;
                }
            }
        }
    }

    /// Concrete bytes of a global (addresses are concrete, so every initialiser is).
    pub fn global_bytes(&self, c: &mut Ctx, g: u32) -> Vec<u8> {
        let gd = &self.globals[g as usize];
        let mut out = vec![0u8; gd.size as usize];
        if let Some((a, b)) = gd.init {
            let mut p = P::new(&self.text[a..b]);
            if p.peek() == b'c' && p.s[p.i + 1] == b'"' {
                p.i += 1;
                let v = self.cstring(&mut p);
                out[..v.len()].copy_from_slice(&v);
                return out;
            }
            let v = self.constant(c, &mut p, &gd.ty);
            self.flatten(c, &gd.ty, &v, &mut out, 0);
        }
        out
    }
    fn flatten(&self, c: &Ctx, ty: &Ty, v: &Val, out: &mut [u8], at: usize) {
        match v {
            Val::S(e) => {
                let k = c.as_const(*e).expect("constant");
                let n = ty.store_size() as usize;
                for i in 0..n.min(16) {
                    out[at + i] = (k >> (8 * i)) as u8;
                }
            }
            Val::Agg(vs) => {
                for (i, x) in vs.iter().enumerate() {
                    self.flatten(c, &ty.field(i), x, out, at + ty.field_offset(i) as usize);
                }
            }
        }
    }

    // -------------------------------------------------------------- function bodies

    pub fn func(&self, c: &mut Ctx, id: u32) -> Rc<Func> {
        if let Some(f) = self.parsed.borrow().get(&id) {
            return f.clone();
        }
        let f = Rc::new(self.parse_func(c, id));
        self.parsed.borrow_mut().insert(id, f.clone());
        f
    }

    fn parse_func(&self, c: &mut Ctx, id: u32) -> Func {
        let d = &self.fns[id as usize];
        let (s, e) = d.body.expect("function has no body");
        let text = &self.text[s..e];
        let mut lines: Vec<&[u8]> = text.split(|b| *b == b'\n').collect();
        let head = lines.remove(0);
        let mut fp = FnParser { m: self, regs: HashMap::new(), nregs: 0, blocks: HashMap::new() };
        // parameters
        let at = memchr(b'@', head).unwrap();
        let mut p = P::new(head);
        p.i = at + 1;
        p.name();
        p.expect("(");
        let mut params = vec![];
        if !p.eat(")") {
            loop {
                if p.eat("...") {
                    p.expect(")");
                    break;
                }
                self.ty(&mut p);
                p.skip_attrs_until(|q| matches!(q.peek(), b'%' | b',' | b')'));
                if p.peek() == b'%' {
                    p.i += 1;
                    let n = p.name();
                    params.push(fp.reg(&n));
                } else {
                    params.push(fp.fresh());
                }
                if p.eat(")") {
                    break;
                }
                p.expect(",");
            }
        }
        // first pass over labels
        let mut groups: Vec<(String, Vec<Vec<u8>>)> = vec![];
        let mut i = 0;
        while i < lines.len() {
            let l = lines[i];
            i += 1;
            if l.is_empty() {
                continue;
            }
            if l[0] != b' ' {
                // label:   (possibly quoted, with trailing comment)
                let mut p = P::new(l);
                let n = p.name();
                groups.push((n, vec![]));
                continue;
            }
            if groups.is_empty() {
                groups.push(("<entry>".into(), vec![]));
            }
            let t = trim(l);
            if t.starts_with(b"#dbg") || t.starts_with(b";") {
                continue;
            }
            let mut full = t.to_vec();
            if t.ends_with(b"[") && (t.starts_with(b"switch ")) {
                while i < lines.len() {
                    let l2 = trim(lines[i]);
                    i += 1;
                    full.push(b' ');
                    full.extend_from_slice(l2);
                    if l2.starts_with(b"]") {
                        break;
                    }
                }
            }
            let has = |s: &[u8], w: &[u8]| s.windows(w.len()).any(|x| x == w);
            if has(t, b"invoke ") && (t.starts_with(b"invoke ") || has(t, b" = invoke ")) {
                while i < lines.len() && !has(&full, b" unwind label ") {
                    full.push(b' ');
                    full.extend_from_slice(trim(lines[i]));
                    i += 1;
                }
            }
            if has(t, b" = landingpad ") {
                while i < lines.len() {
                    let l2 = trim(lines[i]);
                    if l2.starts_with(b"cleanup") || l2.starts_with(b"catch") || l2.starts_with(b"filter") {
                        i += 1;
                    } else {
                        break;
                    }
                }
            }
            groups.last_mut().unwrap().1.push(full);
        }
        for (k, (n, _)) in groups.iter().enumerate() {
            fp.blocks.insert(n.clone(), k as u32);
        }
        let mut blocks = vec![];
        for (n, ls) in &groups {
            let mut insts = vec![];
            for l in ls {
                insts.push(fp.inst(c, l));
            }
            let first = insts.iter().position(|i| !matches!(i.k, Ins::Phi(..))).unwrap_or(insts.len());
            blocks.push(Block { name: n.clone(), insts, first });
        }
        let ipdom = post_dominators(self, &blocks);
        let cfg = make_cfg(&blocks);
        Func { id, name: d.name.clone(), params, nregs: fp.nregs as usize, blocks, ipdom, cfg }
    }

    // -------------------------------------------------------------- debug info

    fn md_line(&self, id: u32) -> Option<&str> {
        let (a, b) = *self.md.get(&id)?;
        std::str::from_utf8(&self.text[a..b]).ok()
    }
    fn md_field<'b>(line: &'b str, key: &str) -> Option<&'b str> {
        // fields look like `(a: 1, b: "x", c: !2)`
        let mut from = 0;
        while let Some(k) = line[from..].find(key) {
            let at = from + k;
            let before = line[..at].chars().last();
            if (before == Some('(') || before == Some(' ')) && line[at + key.len()..].starts_with(": ") {
                let rest = &line[at + key.len() + 2..];
                if let Some(r) = rest.strip_prefix('"') {
                    return r.split('"').next();
                }
                let e = rest.find([',', ')']).unwrap_or(rest.len());
                return Some(&rest[..e]);
            }
            from = at + key.len();
        }
        None
    }
    fn md_ref(line: &str, key: &str) -> Option<u32> {
        Self::md_field(line, key)?.strip_prefix('!')?.parse().ok()
    }
    /// (line, function display name, linkage name, file) for a DILocation and its inline parents
    pub fn locations(&self, dbg: u32) -> Vec<(u32, String, String)> {
        let mut out = vec![];
        let mut cur = dbg;
        while let Some(l) = self.md_line(cur) {
            if !l.contains("DILocation(") {
                break;
            }
            let line: u32 = Self::md_field(l, "line").and_then(|x| x.parse().ok()).unwrap_or(0);
            // walk the scope
            let mut sc = Self::md_ref(l, "scope");
            let mut func = String::new();
            let mut file = String::new();
            let mut fileref = None;
            while let Some(s) = sc {
                let Some(sl) = self.md_line(s) else { break };
                if fileref.is_none() {
                    fileref = Self::md_ref(sl, "file");
                }
                if sl.contains("DISubprogram(") {
                    func = Self::md_field(sl, "linkageName").or(Self::md_field(sl, "name")).unwrap_or("").to_string();
                    break;
                }
                sc = Self::md_ref(sl, "scope");
            }
            if let Some(f) = fileref {
                if let Some(fl) = self.md_line(f) {
                    let name = Self::md_field(fl, "filename").unwrap_or("");
                    let dir = Self::md_field(fl, "directory").unwrap_or("");
                    let name = name.split("/@/").next().unwrap_or(name);
                    file = if name.starts_with('/') { name.to_string() } else { format!("{dir}/{name}") };
                }
            }
            out.push((line, func, file));
            match Self::md_ref(l, "inlinedAt") {
                Some(n) => cur = n,
                None => break,
            }
        }
        out
    }
}

fn memchr(b: u8, s: &[u8]) -> Option<usize> {
    s.iter().position(|x| *x == b)
}
fn trim(s: &[u8]) -> &[u8] {
    let a = s.iter().position(|c| *c != b' ').unwrap_or(s.len());
    let b = s.iter().rposition(|c| *c != b' ').map(|x| x + 1).unwrap_or(a);
    &s[a..b.max(a)]
}

struct FnParser<'m> {
    m: &'m Module,
    regs: HashMap<String, u32>,
    nregs: u32,
    blocks: HashMap<String, u32>,
}

impl<'m> FnParser<'m> {
    fn fresh(&mut self) -> u32 {
        self.nregs += 1;
        self.nregs - 1
    }
    fn reg(&mut self, n: &str) -> u32 {
        if let Some(r) = self.regs.get(n) {
            return *r;
        }
        let r = self.fresh();
        self.regs.insert(n.to_string(), r);
        r
    }
    fn opd(&mut self, c: &mut Ctx, p: &mut P, ty: &Ty) -> Opd {
        if p.peek() == b'%' {
            p.i += 1;
            let n = p.name();
            return Opd::R(self.reg(&n));
        }
        Opd::C(self.m.constant(c, p, ty))
    }
    fn topd(&mut self, c: &mut Ctx, p: &mut P) -> (Ty, Opd) {
        let t = self.m.ty(p);
        let o = self.opd(c, p, &t);
        (t, o)
    }
    fn label(&mut self, p: &mut P) -> u32 {
        p.expect("label");
        p.expect("%");
        let n = p.name();
        *self.blocks.get(&n).or_else(|| if n == "0" || n == "start" { Some(&0) } else { None }).unwrap_or_else(|| {
            // unnamed entry block: numbered after the parameters
            if self.blocks.contains_key("<entry>") {
                &0
            } else {
                p.fail("unknown label")
            }
        })
    }
    fn inst(&mut self, c: &mut Ctx, l: &[u8]) -> Inst {
        let mut p = P::new(l);
        let mut dst = NOREG;
        if p.peek() == b'%' {
            p.i += 1;
            let n = p.name();
            p.expect("=");
            dst = self.reg(&n);
        }
        let mut dbg = 0;
        let ls = l;
        if let Some(k) = ls.windows(6).rposition(|w| w == b"!dbg !") {
            let mut v = 0u32;
            for ch in &ls[k + 6..] {
                if ch.is_ascii_digit() {
                    v = v * 10 + (*ch - b'0') as u32;
                } else {
                    break;
                }
            }
            dbg = v;
        }
        let k = self.ins(c, &mut p);
        Inst { dst, dbg, k }
    }
    fn flags(&mut self, p: &mut P) {
        loop {
            match p.peek_word() {
                "nuw" | "nsw" | "exact" | "disjoint" | "nneg" | "samesign" | "inbounds" | "volatile" | "atomic" | "nusw" | "weak" | "fast" | "nnan"
                | "ninf" | "nsz" | "contract" | "arcp" | "afn" | "reassoc" => {
                    p.word();
                }
                "inrange" => {
                    p.word();
                    p.skip_parens();
                }
                _ => return,
            }
        }
    }
    fn ins(&mut self, c: &mut Ctx, p: &mut P) -> Ins {
        let w = p.word();
        let binop = match w {
            "add" => Some(Op::Add),
            "sub" => Some(Op::Sub),
            "mul" => Some(Op::Mul),
            "udiv" => Some(Op::UDiv),
            "sdiv" => Some(Op::SDiv),
            "urem" => Some(Op::URem),
            "srem" => Some(Op::SRem),
            "and" => Some(Op::And),
            "or" => Some(Op::Or),
            "xor" => Some(Op::Xor),
            "shl" => Some(Op::Shl),
            "lshr" => Some(Op::LShr),
            "ashr" => Some(Op::AShr),
            _ => None,
        };
        if let Some(op) = binop {
            self.flags(p);
            let (t, a) = self.topd(c, p);
            p.expect(",");
            let b = self.opd(c, p, &t);
            return Ins::Bin(op, t, a, b);
        }
        match w {
            "icmp" => {
                self.flags(p);
                let pr = match p.word() {
                    "eq" => Pred::Eq,
                    "ne" => Pred::Ne,
                    "ugt" => Pred::Ugt,
                    "uge" => Pred::Uge,
                    "ult" => Pred::Ult,
                    "ule" => Pred::Ule,
                    "sgt" => Pred::Sgt,
                    "sge" => Pred::Sge,
                    "slt" => Pred::Slt,
                    "sle" => Pred::Sle,
                    _ => p.fail("icmp predicate"),
                };
                let (t, a) = self.topd(c, p);
                p.expect(",");
                let b = self.opd(c, p, &t);
                Ins::Icmp(pr, t, a, b)
            }
            "trunc" | "zext" | "sext" | "bitcast" | "ptrtoint" | "inttoptr" | "ptrtoaddr" | "addrspacecast" => {
                self.flags(p);
                let (t, a) = self.topd(c, p);
                p.expect("to");
                let t2 = self.m.ty(p);
                let k = match w {
                    "trunc" => 't',
                    "zext" => 'z',
                    "sext" => 's',
                    _ => 'b',
                };
                Ins::Cast(k, t, a, t2)
            }
            "load" => {
                self.flags(p);
                let t = self.m.ty(p);
                p.expect(",");
                let (_, a) = self.topd(c, p);
                Ins::Load(t, a)
            }
            "store" => {
                self.flags(p);
                let (t, v) = self.topd(c, p);
                p.expect(",");
                let (_, a) = self.topd(c, p);
                Ins::Store(t, v, a)
            }
            "getelementptr" => {
                self.flags(p);
                let t = self.m.ty(p);
                p.expect(",");
                let (pt, base) = self.topd(c, p);
                if pt != Ty::Ptr {
                    return Ins::Unsupported("vector gep".into());
                }
                let mut cur = t;
                let mut k = 0;
                let mut off = 0u64;
                let mut idx = vec![];
                while p.peek() == b',' {
                    let save = p.i;
                    p.expect(",");
                    if p.peek() == b'!' {
                        p.i = save;
                        break;
                    }
                    let (it, o) = self.topd(c, p);
                    let iw = it.scalar_width().unwrap_or(64);
                    let cv = match &o {
                        Opd::C(v) => Some(sext_val(c.as_const(v.e()).unwrap(), iw) as i64),
                        _ => None,
                    };
                    let stride;
                    if k == 0 {
                        stride = cur.size();
                    } else {
                        match &cur {
                            Ty::Struct(..) => {
                                let f = cv.expect("struct index") as usize;
                                off = off.wrapping_add(cur.field_offset(f));
                                cur = cur.field(f);
                                k += 1;
                                continue;
                            }
                            Ty::Arr(_, t) | Ty::Vec(_, t) => {
                                let t2 = (**t).clone();
                                stride = t2.size();
                                cur = t2;
                            }
                            _ => p.fail("gep type"),
                        }
                    }
                    match cv {
                        Some(v) => off = off.wrapping_add((v as u64).wrapping_mul(stride)),
                        None => idx.push((o, iw, stride)),
                    }
                    k += 1;
                }
                Ins::Gep(base, idx, off)
            }
            "alloca" => {
                p.eat("inalloca");
                let t = self.m.ty(p);
                let mut n = 1u64;
                let mut align = t.align();
                while p.eat(",") {
                    if p.peek() == b'!' {
                        break;
                    }
                    if p.eat("align") {
                        align = p.num();
                    } else if p.eat("addrspace") {
                        p.ws();
                        p.skip_parens();
                    } else {
                        let (_, o) = self.topd(c, p);
                        match o {
                            Opd::C(v) => n = c.as_const(v.e()).unwrap() as u64,
                            _ => return Ins::Unsupported("dynamic alloca".into()),
                        }
                    }
                }
                Ins::Alloca(t.size() * n, align)
            }
            "select" => {
                self.flags(p);
                let (ct, cc) = self.topd(c, p);
                p.expect(",");
                let (t, a) = self.topd(c, p);
                p.expect(",");
                let (_, b) = self.topd(c, p);
                Ins::Select(cc, t, a, b, ct.is_agg())
            }
            "extractvalue" => {
                let (_, a) = self.topd(c, p);
                let mut ix = vec![];
                while p.eat(",") {
                    if p.peek() == b'!' {
                        break;
                    }
                    ix.push(p.num() as u32);
                }
                Ins::ExtractValue(a, ix)
            }
            "insertvalue" => {
                let (_, a) = self.topd(c, p);
                p.expect(",");
                let (_, v) = self.topd(c, p);
                let mut ix = vec![];
                while p.eat(",") {
                    if p.peek() == b'!' {
                        break;
                    }
                    ix.push(p.num() as u32);
                }
                Ins::InsertValue(a, v, ix)
            }
            "extractelement" => {
                let (_, a) = self.topd(c, p);
                p.expect(",");
                let (_, i) = self.topd(c, p);
                Ins::ExtractElement(a, i)
            }
            "insertelement" => {
                let (_, a) = self.topd(c, p);
                p.expect(",");
                let (_, v) = self.topd(c, p);
                p.expect(",");
                let (_, i) = self.topd(c, p);
                Ins::InsertElement(a, v, i)
            }
            "shufflevector" => {
                let (_, a) = self.topd(c, p);
                p.expect(",");
                let (_, b) = self.topd(c, p);
                p.expect(",");
                let mt = self.m.ty(p);
                let n = mt.nfields();
                let mut mask = vec![];
                if p.eat("zeroinitializer") {
                    mask = vec![Some(0); n];
                } else if p.eat("poison") || p.eat("undef") {
                    mask = vec![None; n];
                } else if p.eat("splat") {
                    p.expect("(");
                    self.m.ty(p);
                    let k = p.num() as u32;
                    mask = vec![Some(k); n];
                } else {
                    p.expect("<");
                    loop {
                        self.m.ty(p);
                        if p.eat("poison") || p.eat("undef") {
                            mask.push(None);
                        } else {
                            mask.push(Some(p.num() as u32));
                        }
                        if p.eat(">") {
                            break;
                        }
                        p.expect(",");
                    }
                }
                Ins::Shuffle(a, b, mask)
            }
            "freeze" => {
                let (_, a) = self.topd(c, p);
                Ins::Freeze(a)
            }
            "tail" | "musttail" | "notail" => {
                p.expect("call");
                self.call(c, p, false)
            }
            "call" => self.call(c, p, false),
            "invoke" => self.call(c, p, true),
            "atomicrmw" => {
                self.flags(p);
                let op = p.word().to_string();
                let (_, a) = self.topd(c, p);
                p.expect(",");
                let (t, v) = self.topd(c, p);
                Ins::Rmw(op, t, a, v)
            }
            "cmpxchg" => {
                self.flags(p);
                let (_, a) = self.topd(c, p);
                p.expect(",");
                let (t, o) = self.topd(c, p);
                p.expect(",");
                let (_, n) = self.topd(c, p);
                Ins::CmpXchg(t, a, o, n)
            }
            "fence" => Ins::Fence,
            "phi" => {
                self.flags(p);
                let t = self.m.ty(p);
                let mut v = vec![];
                loop {
                    p.expect("[");
                    let o = self.opd(c, p, &t);
                    p.expect(",");
                    p.expect("%");
                    let n = p.name();
                    let b = *self.blocks.get(&n).or_else(|| self.blocks.get("<entry>")).unwrap_or_else(|| p.fail("phi label"));
                    p.expect("]");
                    v.push((o, b));
                    if !p.eat(",") || p.peek() == b'!' {
                        break;
                    }
                }
                Ins::Phi(t, v)
            }
            "br" => {
                if p.peek_word() == "label" {
                    return Ins::Br(self.label(p));
                }
                let (_, cc) = self.topd(c, p);
                p.expect(",");
                let a = self.label(p);
                p.expect(",");
                let b = self.label(p);
                Ins::CondBr(cc, a, b)
            }
            "switch" => {
                let (_, v) = self.topd(c, p);
                p.expect(",");
                let d = self.label(p);
                p.expect("[");
                let mut cases = vec![];
                while !p.eat("]") {
                    let (_, k) = self.topd(c, p);
                    p.expect(",");
                    let b = self.label(p);
                    let k = match k {
                        Opd::C(v) => c.as_const(v.e()).unwrap(),
                        _ => p.fail("switch case"),
                    };
                    cases.push((k, b));
                }
                Ins::Switch(v, d, cases)
            }
            "ret" => {
                if p.eat("void") {
                    return Ins::Ret(None);
                }
                let (_, v) = self.topd(c, p);
                Ins::Ret(Some(v))
            }
            "unreachable" => Ins::Unreachable,
            // never reached: calls do not unwind (panic=abort)
            "landingpad" | "resume" | "cleanupret" | "catchswitch" => Ins::Unreachable,
            _ => Ins::Unsupported(String::from_utf8_lossy(p.s).into_owned()),
        }
    }
    fn call(&mut self, c: &mut Ctx, p: &mut P, invoke: bool) -> Ins {
        p.skip_attrs_until(|q| q.type_starts());
        let ret = self.m.ty(p);
        if p.peek() == b'(' {
            p.skip_parens();
        }
        let callee = match p.peek() {
            b'@' => {
                p.i += 1;
                let n = p.name();
                match self.m.fn_id(&n) {
                    Some(i) => Callee::Fn(i),
                    None => {
                        let a = self.m.sym_addr(&n);
                        Callee::Ind(Opd::C(Val::S(c.cst(a as u128, 64))))
                    }
                }
            }
            b'%' => {
                p.i += 1;
                let n = p.name();
                Callee::Ind(Opd::R(self.reg(&n)))
            }
            _ => {
                if p.peek_word() == "asm" {
                    Callee::Asm
                } else {
                    Callee::Ind(Opd::C(self.m.constant(c, p, &Ty::Ptr)))
                }
            }
        };
        if let Callee::Asm = callee {
            return Ins::Call { callee, args: vec![], ret, noreturn: false, normal: None };
        }
        p.expect("(");
        let mut args = vec![];
        if !p.eat(")") {
            loop {
                if p.peek_word() == "metadata" {
                    // skip to the end of this argument
                    let mut d = 0;
                    while p.i < p.s.len() {
                        match p.s[p.i] {
                            b'(' => d += 1,
                            b')' if d == 0 => break,
                            b')' => d -= 1,
                            b',' if d == 0 => break,
                            _ => {}
                        }
                        p.i += 1;
                    }
                    args.push(Opd::C(Val::S(c.fals)));
                } else {
                    let t = self.m.ty(p);
                    p.skip_attrs_until(|q| {
                        let ch = q.peek();
                        matches!(ch, b'%' | b'@' | b'{' | b'[' | b'<' | b'-') || ch.is_ascii_digit() || VAL_WORDS.contains(&q.peek_word())
                    });
                    args.push(self.opd(c, p, &t));
                }
                if p.eat(")") {
                    break;
                }
                p.expect(",");
            }
        }
        let mut noreturn = false;
        // function attributes of the call site
        loop {
            let ch = p.peek();
            if ch == b'#' {
                p.i += 1;
                let g = p.num() as u32;
                noreturn |= self.m.noreturn_groups.contains(&g);
            } else if ch == b'[' {
                // operand bundle
                while p.s[p.i] != b']' {
                    p.i += 1;
                }
                p.i += 1;
            } else if ch.is_ascii_alphabetic() && p.peek_word() != "to" {
                if p.word() == "noreturn" {
                    noreturn = true;
                }
                if p.peek() == b'(' {
                    p.skip_parens();
                }
            } else {
                break;
            }
        }
        if let Callee::Fn(i) = callee {
            noreturn |= self.m.fns[i as usize].noreturn;
        }
        let mut normal = None;
        if invoke {
            p.expect("to");
            normal = Some(self.label(p));
        }
        Ins::Call { callee, args, ret, noreturn, normal }
    }
}

/// Successors that can lead to a normal return.
pub fn successors(b: &Block) -> Vec<u32> {
    match &b.insts.last().map(|i| &i.k) {
        Some(Ins::Br(t)) => vec![*t],
        Some(Ins::CondBr(_, a, b)) => vec![*a, *b],
        Some(Ins::Switch(_, d, cs)) => {
            let mut v = vec![*d];
            v.extend(cs.iter().map(|x| x.1));
            v.sort_unstable();
            v.dedup();
            v
        }
        Some(Ins::Call { normal: Some(n), noreturn, .. }) => {
            if *noreturn {
                vec![]
            } else {
                vec![*n]
            }
        }
        _ => vec![],
    }
}

fn post_dominators(_m: &Module, blocks: &[Block]) -> Vec<usize> {
    let n = blocks.len();
    let exit = n;
    let mut succ: Vec<Vec<usize>> = vec![vec![]; n + 1];
    for (i, b) in blocks.iter().enumerate() {
        // a block calling a noreturn function never reaches its terminator
        let dead = b.insts.iter().any(|x| matches!(x.k, Ins::Call { noreturn: true, .. }));
        if dead {
            continue;
        }
        if let Some(Ins::Ret(_)) = b.insts.last().map(|i| &i.k) {
            succ[i].push(exit);
        } else {
            succ[i] = successors(b).into_iter().map(|x| x as usize).collect();
        }
    }
    let mut pred: Vec<Vec<usize>> = vec![vec![]; n + 1];
    for (i, s) in succ.iter().enumerate() {
        for t in s {
            pred[*t].push(i);
        }
    }
    // blocks that reach the exit, in post-order of the reversed graph
    let mut order = vec![];
    let mut seen = vec![false; n + 1];
    let mut stack = vec![(exit, 0usize)];
    seen[exit] = true;
    while let Some((b, k)) = stack.pop() {
        if k < pred[b].len() {
            stack.push((b, k + 1));
            let q = pred[b][k];
            if !seen[q] {
                seen[q] = true;
                stack.push((q, 0));
            }
        } else {
            order.push(b);
        }
    }
    let mut num = vec![usize::MAX; n + 1];
    for (i, b) in order.iter().enumerate() {
        num[*b] = i;
    }
    let mut idom = vec![usize::MAX; n + 1];
    idom[exit] = exit;
    let mut changed = true;
    while changed {
        changed = false;
        for &b in order.iter().rev() {
            if b == exit {
                continue;
            }
            let mut new = usize::MAX;
            for &s in &succ[b] {
                if !seen[s] || idom[s] == usize::MAX {
                    continue;
                }
                if new == usize::MAX {
                    new = s;
                } else {
                    let (mut x, mut y) = (new, s);
                    while x != y {
                        while num[x] < num[y] {
                            x = idom[x];
                        }
                        while num[y] < num[x] {
                            y = idom[y];
                        }
                    }
                    new = x;
                }
            }
            if new != idom[b] {
                idom[b] = new;
                changed = true;
            }
        }
    }
    idom[..n].to_vec()
}
