//! Lazy parser for textual LLVM IR.
use crate::ir::*;
use std::collections::HashMap;
use std::sync::{Arc, OnceLock};

#[derive(Clone, Debug, PartialEq)]
enum Tok {
    Word(String),
    Local(String),
    Global(String),
    Int(i128),
    Num(String),
    CStr(Vec<u8>),
    Meta,
    Attr,
    Ell,
    P(char),
}

fn is_word(c: u8) -> bool {
    c.is_ascii_alphanumeric() || c == b'_' || c == b'.' || c == b'$'
}

fn name_at(s: &[u8], mut i: usize) -> (String, usize) {
    if i < s.len() && s[i] == b'"' {
        let st = i + 1;
        i = st;
        while s[i] != b'"' {
            i += 1;
        }
        (String::from_utf8_lossy(&s[st..i]).into_owned(), i + 1)
    } else {
        let st = i;
        while i < s.len() && (is_word(s[i]) || s[i] == b'-') {
            i += 1;
        }
        (String::from_utf8_lossy(&s[st..i]).into_owned(), i)
    }
}

fn unescape(s: &[u8]) -> Vec<u8> {
    let mut r = Vec::new();
    let mut i = 0;
    while i < s.len() {
        if s[i] == b'\\' && i + 2 < s.len() + 0 && s[i + 1].is_ascii_hexdigit() {
            let h = std::str::from_utf8(&s[i + 1..i + 3]).unwrap();
            r.push(u8::from_str_radix(h, 16).unwrap());
            i += 3;
        } else if s[i] == b'\\' {
            r.push(b'\\');
            i += 2;
        } else {
            r.push(s[i]);
            i += 1;
        }
    }
    r
}

fn lex(line: &str) -> Result<Vec<Tok>, String> {
    let s = line.as_bytes();
    let mut i = 0;
    let mut out = Vec::new();
    while i < s.len() {
        let c = s[i];
        match c {
            b' ' | b'\t' | b'\n' | b'\r' => i += 1,
            b';' => break,
            b'%' => {
                let (n, j) = name_at(s, i + 1);
                out.push(Tok::Local(n));
                i = j;
            }
            b'@' => {
                let (n, j) = name_at(s, i + 1);
                out.push(Tok::Global(n));
                i = j;
            }
            b'!' => {
                // metadata: !name, !123, !{...}
                i += 1;
                if i < s.len() && s[i] == b'{' {
                    let mut d = 0;
                    while i < s.len() {
                        if s[i] == b'{' {
                            d += 1
                        }
                        if s[i] == b'}' {
                            d -= 1;
                            if d == 0 {
                                i += 1;
                                break;
                            }
                        }
                        i += 1;
                    }
                } else {
                    let (_, j) = name_at(s, i);
                    i = j;
                }
                out.push(Tok::Meta);
            }
            b'#' => {
                i += 1;
                while i < s.len() && s[i].is_ascii_digit() {
                    i += 1;
                }
                out.push(Tok::Attr);
            }
            b'c' if i + 1 < s.len() && s[i + 1] == b'"' => {
                let st = i + 2;
                i = st;
                while s[i] != b'"' {
                    i += 1;
                }
                out.push(Tok::CStr(unescape(&s[st..i])));
                i += 1;
            }
            b'"' => {
                let st = i + 1;
                i = st;
                while s[i] != b'"' {
                    i += 1;
                }
                out.push(Tok::Word(String::from_utf8_lossy(&s[st..i]).into_owned()));
                i += 1;
            }
            b'.' if s[i..].starts_with(b"...") => {
                out.push(Tok::Ell);
                i += 3;
            }
            b'0'..=b'9' | b'-' | b'+' => {
                let st = i;
                i += 1;
                while i < s.len()
                    && (s[i].is_ascii_alphanumeric()
                        || s[i] == b'.'
                        || ((s[i] == b'+' || s[i] == b'-') && (s[i - 1] == b'e' || s[i - 1] == b'E')))
                {
                    i += 1;
                }
                let t = &line[st..i];
                match t.parse::<i128>() {
                    Ok(v) => out.push(Tok::Int(v)),
                    Err(_) => match t.parse::<u128>() {
                        Ok(v) => out.push(Tok::Int(v as i128)),
                        Err(_) => out.push(Tok::Num(t.to_string())),
                    },
                }
            }
            _ if is_word(c) => {
                let (n, j) = {
                    let st = i;
                    let mut k = i;
                    while k < s.len() && is_word(s[k]) {
                        k += 1;
                    }
                    (line[st..k].to_string(), k)
                };
                out.push(Tok::Word(n));
                i = j;
            }
            _ => {
                out.push(Tok::P(c as char));
                i += 1;
            }
        }
    }
    Ok(out)
}

pub struct GlobalDef {
    pub name: String,
    pub size: u64,
    pub align: u32,
    pub constant: bool,
    pub data: Vec<u8>,
    /// per byte: 1 initialised, 0 not; empty: all initialised
    pub sh: Vec<u8>,
}

pub struct Module {
    text: String,
    /// name, pretty, byte range (start of define line, end)
    fdefs: Vec<(Arc<str>, Arc<str>, usize, usize)>,
    fnames: HashMap<String, u32>,
    gnames: HashMap<String, u32>,
    gdefs_raw: Vec<(String, usize, usize)>,
    pub globals: Vec<GlobalDef>,
    funcs: Vec<OnceLock<Result<Arc<Func>, String>>>,
    pub decls: Vec<String>,
}

pub const FUNC_SLOT: u64 = 1;
pub const GLOBAL_BASE: u64 = 16;

pub fn func_addr(id: u32) -> u64 {
    (FUNC_SLOT << 32) + 0x1000 + 16 * id as u64
}

struct P<'m> {
    m: &'m Module,
    t: Vec<Tok>,
    i: usize,
    regs: Option<HashMap<String, u32>>,
    nregs: u32,
}

type R<T> = Result<T, String>;

impl Module {
    pub fn load(text: String) -> R<Module> {
        let mut fdefs: Vec<(Arc<str>, Arc<str>, usize, usize)> = Vec::new();
        let mut fnames = HashMap::new();
        let mut gnames = HashMap::new();
        let mut graw: Vec<(String, usize, usize)> = Vec::new();
        let mut decls = Vec::new();
        let mut pos = 0;
        let b = text.as_bytes();
        let mut last_comment = String::new();
        while pos < b.len() {
            let end = text[pos..].find('\n').map(|x| pos + x).unwrap_or(b.len());
            let line = &text[pos..end];
            if line.starts_with("define ") {
                // body ends at a line "}"
                let close = text[pos..].find("\n}\n").map(|x| pos + x).ok_or("no close")?;
                let at = line.find('@').ok_or("define without name")?;
                let (name, _) = name_at(line.as_bytes(), at + 1);
                let id = fdefs.len() as u32;
                fnames.insert(name.clone(), id);
                let pretty: Arc<str> =
                    if last_comment.is_empty() { name.clone().into() } else { last_comment.clone().into() };
                fdefs.push((name.into(), pretty, pos, close));
                pos = close + 3;
                last_comment.clear();
                continue;
            } else if line.starts_with("declare ") {
                if let Some(at) = line.find('@') {
                    let (name, _) = name_at(line.as_bytes(), at + 1);
                    decls.push(name);
                }
            } else if line.starts_with('@') {
                let (name, j) = name_at(line.as_bytes(), 1);
                gnames.insert(name.clone(), graw.len() as u32);
                graw.push((name, pos + j, end));
            }
            if let Some(c) = line.strip_prefix("; ") {
                if !c.starts_with("Function Attrs") {
                    last_comment = c.to_string();
                }
            } else if !line.is_empty() {
                last_comment.clear();
            }
            pos = end + 1;
        }
        let n = fdefs.len();
        let mut m = Module {
            text,
            fdefs,
            fnames,
            gnames,
            gdefs_raw: graw,
            globals: Vec::new(),
            funcs: (0..n).map(|_| OnceLock::new()).collect(),
            decls,
        };
        let mut gl = Vec::new();
        for k in 0..m.gdefs_raw.len() {
            gl.push(m.parse_global(k)?);
        }
        m.globals = gl;
        Ok(m)
    }

    pub fn func_id(&self, name: &str) -> Option<u32> {
        self.fnames.get(name).copied()
    }
    pub fn nfuncs(&self) -> usize {
        self.fdefs.len()
    }
    pub fn func_name(&self, id: u32) -> (&Arc<str>, &Arc<str>) {
        let f = &self.fdefs[id as usize];
        (&f.0, &f.1)
    }
    pub fn names_with_prefix(&self, p: &str) -> Vec<String> {
        self.fdefs.iter().filter(|f| f.0.starts_with(p)).map(|f| f.0.to_string()).collect()
    }

    pub fn func(&self, id: u32) -> R<Arc<Func>> {
        self.funcs[id as usize].get_or_init(|| self.parse_func(id).map(Arc::new)).clone()
    }

    fn global_addr(&self, name: &str) -> R<u64> {
        if let Some(f) = self.fnames.get(name) {
            return Ok(func_addr(*f));
        }
        if let Some(g) = self.gnames.get(name) {
            return Ok((GLOBAL_BASE + *g as u64) << 32);
        }
        // external symbol: an address that can be compared but not used
        let mut h: u64 = 1469598103934665603;
        for c in name.bytes() {
            h = (h ^ c as u64).wrapping_mul(1099511628211);
        }
        Ok((2u64 << 32) | (h & 0xffff_fff0))
    }

    fn parse_global(&self, k: usize) -> R<GlobalDef> {
        let (name, st, en) = &self.gdefs_raw[k];
        let toks = lex(&self.text[*st..*en])?;
        let mut p = P { m: self, t: toks, i: 0, regs: None, nregs: 0 };
        p.expect('=')?;
        let mut constant = false;
        loop {
            match p.peek() {
                Some(Tok::Word(w)) => {
                    let w = w.clone();
                    if w == "global" || w == "constant" {
                        constant = w == "constant";
                        p.i += 1;
                        break;
                    }
                    if w == "alias" || w == "ifunc" {
                        return Ok(GlobalDef {
                            name: name.clone(),
                            size: 0,
                            align: 1,
                            constant: true,
                            data: vec![],
                            sh: vec![],
                        });
                    }
                    p.i += 1;
                    p.skip_parens();
                }
                _ => return Err(format!("global {}: {:?}", name, p.peek())),
            }
        }
        let external = self.text[*st..*en].contains("= external") || self.text[*st..*en].contains("= extern_weak");
        let ty = p.ty()?;
        let size = ty.size();
        let mut data = vec![0u8; size as usize];
        let mut undef = Vec::new();
        if !external {
            p.init(&ty, &mut data, 0, &mut undef)?;
        }
        let mut sh = Vec::new();
        if !undef.is_empty() {
            sh = vec![1u8; size as usize];
            for (a, n) in undef {
                sh[a as usize..(a + n) as usize].fill(0);
            }
        }
        let mut align = ty.size_align().1 as u32;
        while p.i < p.t.len() {
            if let Tok::Word(w) = &p.t[p.i] {
                if w == "align" {
                    if let Some(Tok::Int(v)) = p.t.get(p.i + 1) {
                        align = *v as u32;
                    }
                }
            }
            p.i += 1;
        }
        Ok(GlobalDef { name: name.clone(), size, align, constant, data, sh })
    }

    fn parse_func(&self, id: u32) -> R<Func> {
        let (name, pretty, st, en) = &self.fdefs[id as usize];
        let text = &self.text[*st..*en];
        let mut lines = text.lines();
        let head = lines.next().unwrap();
        // header: parameters
        let toks = lex(head)?;
        let mut p = P { m: self, t: toks, i: 0, regs: Some(HashMap::new()), nregs: 0 };
        while !matches!(p.peek(), Some(Tok::Global(_))) {
            p.i += 1;
        }
        p.i += 1;
        p.expect('(')?;
        let mut nparams = 0;
        let mut numeric = 0;
        while p.peek() != Some(&Tok::P(')')) {
            if p.peek() == Some(&Tok::Ell) {
                p.i += 1;
                continue;
            }
            let _ = p.ty()?;
            p.skip_attrs();
            let nm = match p.peek().cloned() {
                Some(Tok::Local(n)) => {
                    p.i += 1;
                    n
                }
                _ => format!("{}", numeric),
            };
            if nm.bytes().all(|c| c.is_ascii_digit()) {
                numeric += 1;
            }
            p.reg(&nm);
            nparams += 1;
            if p.peek() == Some(&Tok::P(',')) {
                p.i += 1;
            }
        }
        // statements
        let mut stmts: Vec<(Option<String>, String)> = Vec::new(); // (label, "") or (None, line)
        let mut cur: Option<String> = None;
        let mut in_switch = false;
        for l in lines {
            let tl = l.trim();
            if tl.is_empty() || tl.starts_with(';') || tl.starts_with("#dbg") || tl == "{" {
                continue;
            }
            if in_switch {
                let c = cur.as_mut().unwrap();
                c.push(' ');
                c.push_str(tl);
                if tl.starts_with(']') {
                    in_switch = false;
                }
                continue;
            }
            if tl.starts_with("to label ")
                || tl == "cleanup"
                || tl.starts_with("cleanup,")
                || tl.starts_with("filter ")
                || tl.starts_with("catch ")
            {
                let c = cur.as_mut().ok_or("continuation")?;
                c.push(' ');
                c.push_str(tl);
                continue;
            }
            if let Some(c) = cur.take() {
                stmts.push((None, c));
            }
            if !l.starts_with(' ') {
                // label
                let b = l.as_bytes();
                let (nm, _) = name_at(b, 0);
                stmts.push((Some(nm), String::new()));
                continue;
            }
            if tl.starts_with("switch ") && tl.ends_with('[') {
                in_switch = true;
            }
            cur = Some(tl.to_string());
        }
        if let Some(c) = cur.take() {
            stmts.push((None, c));
        }
        // blocks
        struct Blk {
            phis: Vec<(u32, Ty, Vec<(Opnd, String)>)>,
            start: u32,
        }
        let mut blocks: HashMap<String, usize> = HashMap::new();
        let mut blks: Vec<Blk> = Vec::new();
        let mut code: Vec<Instr> = Vec::new();
        // edges recorded as (from label, to label)
        let mut edge_raw: Vec<(String, String)> = Vec::new();
        let mut cur_label = String::new();
        for (lab, line) in stmts {
            if let Some(l) = lab {
                blocks.insert(l.clone(), blks.len());
                blks.push(Blk { phis: vec![], start: code.len() as u32 });
                cur_label = l;
                continue;
            }
            if blks.is_empty() {
                let l = format!("{}", numeric);
                blocks.insert(l.clone(), 0);
                blks.push(Blk { phis: vec![], start: 0 });
                cur_label = l;
            }
            p.t = lex(&line)?;
            p.i = 0;
            // phi?
            if let (Some(Tok::Local(d)), Some(Tok::P('=')), Some(Tok::Word(w))) =
                (p.t.first().cloned(), p.t.get(1).cloned(), p.t.get(2).cloned())
            {
                if w == "phi" {
                    p.i = 3;
                    p.skip_flags();
                    let ty = p.ty()?;
                    let dst = p.reg(&d);
                    let mut inc = Vec::new();
                    loop {
                        p.expect('[')?;
                        let v = p.operand(&ty)?;
                        p.expect(',')?;
                        let l = p.local()?;
                        p.expect(']')?;
                        inc.push((v, l));
                        if p.peek() == Some(&Tok::P(','))
                            && matches!(p.t.get(p.i + 1), Some(Tok::P('[')))
                        {
                            p.i += 1;
                        } else {
                            break;
                        }
                    }
                    blks.last_mut().unwrap().phis.push((dst, ty, inc));
                    continue;
                }
            }
            let ins = match p.instr(&cur_label, &mut edge_raw) {
                Ok(i) => i,
                Err(e) => Instr::Unsupported(format!("{}: {}", e, line).into()),
            };
            code.push(ins);
        }
        let mut edges = Vec::new();
        for (from, to) in edge_raw {
            let bi = *blocks.get(&to).ok_or_else(|| format!("no block {}", to))?;
            let mut moves = Vec::new();
            for (dst, _, inc) in &blks[bi].phis {
                let v = inc
                    .iter()
                    .find(|(_, l)| *l == from)
                    .ok_or_else(|| format!("phi without {} in {}", from, to))?;
                moves.push((*dst, v.0.clone()));
            }
            edges.push(Edge { target: blks[bi].start, moves });
        }
        Ok(Func {
            id,
            name: name.clone(),
            pretty: pretty.clone(),
            nparams,
            nregs: p.nregs,
            code,
            edges,
        })
    }
}

fn mask(v: u64, w: u32) -> u64 {
    if w >= 64 {
        v
    } else {
        v & ((1u64 << w) - 1)
    }
}

const TYWORDS: &[&str] = &["void", "ptr", "double", "float", "half", "metadata", "token", "label", "opaque", "fp128", "x86_fp80"];

fn is_ty_word(w: &str) -> bool {
    TYWORDS.contains(&w) || (w.starts_with('i') && w.len() > 1 && w[1..].bytes().all(|c| c.is_ascii_digit()))
}

impl<'m> P<'m> {
    fn peek(&self) -> Option<&Tok> {
        self.t.get(self.i)
    }
    fn next(&mut self) -> R<Tok> {
        let t = self.t.get(self.i).cloned().ok_or("unexpected end")?;
        self.i += 1;
        Ok(t)
    }
    fn expect(&mut self, c: char) -> R<()> {
        match self.next()? {
            Tok::P(x) if x == c => Ok(()),
            t => Err(format!("expected {} got {:?}", c, t)),
        }
    }
    fn eat(&mut self, c: char) -> bool {
        if self.peek() == Some(&Tok::P(c)) {
            self.i += 1;
            true
        } else {
            false
        }
    }
    fn eatw(&mut self, w: &str) -> bool {
        if let Some(Tok::Word(x)) = self.peek() {
            if x == w {
                self.i += 1;
                return true;
            }
        }
        false
    }
    fn local(&mut self) -> R<String> {
        match self.next()? {
            Tok::Local(l) => Ok(l),
            t => Err(format!("expected local got {:?}", t)),
        }
    }
    fn reg(&mut self, n: &str) -> u32 {
        let regs = self.regs.as_mut().expect("local in global context");
        if let Some(r) = regs.get(n) {
            return *r;
        }
        let r = self.nregs;
        self.nregs += 1;
        regs.insert(n.to_string(), r);
        r
    }
    fn skip_parens(&mut self) {
        if self.peek() == Some(&Tok::P('(')) {
            let mut d = 0;
            while let Some(t) = self.t.get(self.i) {
                match t {
                    Tok::P('(') => d += 1,
                    Tok::P(')') => d -= 1,
                    _ => {}
                }
                self.i += 1;
                if d == 0 {
                    break;
                }
            }
        }
    }
    /// Attribute words that may precede an operand or a type.
    fn skip_attrs(&mut self) {
        loop {
            match self.peek() {
                Some(Tok::Word(w)) => {
                    let w = w.as_str();
                    if is_ty_word(w)
                        || w.starts_with("f0x")
                        || w.starts_with("0x")
                        || matches!(
                            w,
                            "true" | "false" | "null" | "undef" | "poison" | "zeroinitializer" | "none"
                                | "getelementptr" | "ptrtoint" | "inttoptr" | "add" | "sub" | "trunc" | "bitcast"
                                | "asm" | "splat" | "xor" | "mul" | "ptrtoaddr" | "to" | "unwind" | "addrspacecast"
                                | "icmp" | "select" | "blockaddress"
                        )
                    {
                        return;
                    }
                    if w == "align" {
                        self.i += 1;
                        if matches!(self.peek(), Some(Tok::Int(_))) {
                            self.i += 1;
                        } else {
                            self.skip_parens();
                        }
                        continue;
                    }
                    self.i += 1;
                    self.skip_parens();
                }
                Some(Tok::Attr) => {
                    self.i += 1;
                }
                _ => return,
            }
        }
    }
    /// Flags of a constant expression, up to its opening parenthesis.
    fn skip_flags(&mut self) {
        loop {
            match self.peek() {
                Some(Tok::Word(w)) if matches!(w.as_str(), "inbounds" | "nuw" | "nsw" | "nusw" | "exact" | "disjoint") => {
                    self.i += 1;
                }
                Some(Tok::Word(w)) if w == "inrange" => {
                    self.i += 1;
                    self.skip_parens();
                }
                _ => return,
            }
        }
    }
    fn ty(&mut self) -> R<Ty> {
        self.skip_attrs();
        match self.next()? {
            Tok::Word(w) => match w.as_str() {
                "void" => Ok(Ty::Void),
                "ptr" => {
                    if self.eatw("addrspace") {
                        self.skip_parens();
                    }
                    Ok(Ty::Ptr)
                }
                "double" => Ok(Ty::F64),
                "float" => Ok(Ty::F32),
                _ if w.starts_with('i') && is_ty_word(&w) => Ok(Ty::Int(w[1..].parse().map_err(|_| "int type")?)),
                _ if is_ty_word(&w) => Ok(Ty::Other),
                _ => Err(format!("type {}", w)),
            },
            Tok::P('[') => {
                let n = self.int()?;
                if !self.eatw("x") {
                    return Err("array".into());
                }
                let t = self.ty()?;
                self.expect(']')?;
                Ok(Ty::Array(n as u64, Arc::new(t)))
            }
            Tok::P('{') => {
                let mut v = Vec::new();
                while !self.eat('}') {
                    v.push(self.ty()?);
                    self.eat(',');
                }
                Ok(Ty::Struct(v, false))
            }
            Tok::P('<') => {
                if self.eat('{') {
                    let mut v = Vec::new();
                    while !self.eat('}') {
                        v.push(self.ty()?);
                        self.eat(',');
                    }
                    self.expect('>')?;
                    return Ok(Ty::Struct(v, true));
                }
                let n = self.int()?;
                if !self.eatw("x") {
                    return Err("vector".into());
                }
                let t = self.ty()?;
                self.expect('>')?;
                Ok(Ty::Vector(n as u64, Arc::new(t)))
            }
            t => Err(format!("type token {:?}", t)),
        }
    }
    fn int(&mut self) -> R<i128> {
        match self.next()? {
            Tok::Int(v) => Ok(v),
            t => Err(format!("expected int got {:?}", t)),
        }
    }

    /// a constant expression evaluating to a concrete 64-bit value, keyword already consumed
    fn const_expr(&mut self, kw: &str) -> R<u64> {
        match kw {
            "getelementptr" => {
                self.skip_flags();
                self.expect('(')?;
                let bt = self.ty()?;
                self.expect(',')?;
                let pt = self.ty()?;
                let base = self.const_scalar(&pt)?;
                let mut off = base;
                let mut cur = bt;
                let mut first = true;
                while self.eat(',') {
                    let it = self.ty()?;
                    let v = self.const_scalar(&it)?;
                    let v = sext(v, it.bits());
                    if first {
                        off = off.wrapping_add(v.wrapping_mul(cur.size()));
                        first = false;
                    } else {
                        let (o, t) = match &cur {
                            Ty::Array(..) | Ty::Vector(..) => {
                                let (_, t) = cur.field_offset(0);
                                (v.wrapping_mul(t.size()), t)
                            }
                            _ => cur.field_offset(v),
                        };
                        off = off.wrapping_add(o);
                        cur = t;
                    }
                }
                self.expect(')')?;
                Ok(off)
            }
            "ptrtoint" | "inttoptr" | "trunc" | "bitcast" | "ptrtoaddr" => {
                self.expect('(')?;
                let t = self.ty()?;
                let v = self.const_scalar(&t)?;
                if !self.eatw("to") {
                    return Err("cast to".into());
                }
                let t2 = self.ty()?;
                self.expect(')')?;
                Ok(mask(v, t2.bits()))
            }
            "add" | "sub" | "xor" | "mul" => {
                self.skip_flags();
                self.expect('(')?;
                let t = self.ty()?;
                let a = self.const_scalar(&t)?;
                self.expect(',')?;
                let t2 = self.ty()?;
                let b = self.const_scalar(&t2)?;
                self.expect(')')?;
                let r = match kw {
                    "add" => a.wrapping_add(b),
                    "sub" => a.wrapping_sub(b),
                    "mul" => a.wrapping_mul(b),
                    _ => a ^ b,
                };
                Ok(mask(r, t.bits()))
            }
            _ => Err(format!("constant expression {}", kw)),
        }
    }
    fn const_scalar(&mut self, t: &Ty) -> R<u64> {
        match self.operand(t)? {
            Opnd::C(v) => Ok(v),
            Opnd::Undef(_) => Ok(0),
            o => Err(format!("non-constant {:?}", o)),
        }
    }

    /// operand of a known type
    fn operand(&mut self, ty: &Ty) -> R<Opnd> {
        self.skip_attrs();
        let t = self.next()?;
        Ok(match t {
            Tok::Local(n) => Opnd::R(self.reg(&n)),
            Tok::Global(n) => Opnd::C(self.m.global_addr(&n)?),
            Tok::Int(v) => match ty {
                Ty::Int(w) if *w > 64 => {
                    let m = if *w >= 128 { u128::MAX } else { (1u128 << w) - 1 };
                    Opnd::W(v as u128 & m, *w)
                }
                Ty::Int(w) => Opnd::C(mask(v as u64, *w)),
                Ty::Ptr => Opnd::C(v as u64),
                _ => return Err(format!("int const of type {:?}", ty)),
            },
            Tok::Num(s) => {
                if let Some(h) = s.strip_prefix("0x") {
                    let bits = u64::from_str_radix(h, 16).map_err(|_| format!("float {}", s))?;
                    match ty {
                        Ty::F64 => Opnd::C(bits),
                        Ty::F32 => Opnd::C((f64::from_bits(bits) as f32).to_bits() as u64),
                        _ => return Err("hex float".into()),
                    }
                } else {
                    match ty {
                        Ty::F64 => Opnd::C(s.parse::<f64>().map_err(|_| format!("float {}", s))?.to_bits()),
                        Ty::F32 => Opnd::C(s.parse::<f64>().map_err(|_| format!("float {}", s))? as f32 as f64 as f32 as f64 as u64 * 0
                            + (s.parse::<f64>().unwrap() as f32).to_bits() as u64),
                        _ => return Err(format!("number {} for {:?}", s, ty)),
                    }
                }
            }
            Tok::Word(w) => match w.as_str() {
                "true" => Opnd::C(1),
                "false" => Opnd::C(0),
                "null" | "none" => Opnd::C(0),
                "undef" | "poison" => undef_of(ty),
                "zeroinitializer" => zero_of(ty),
                "splat" => {
                    self.expect('(')?;
                    let t = self.ty()?;
                    let v = self.operand(&t)?;
                    self.expect(')')?;
                    match ty {
                        Ty::Vector(n, _) => Opnd::Agg(vec![v; *n as usize].into()),
                        _ => return Err("splat".into()),
                    }
                }
                _ if w.starts_with("f0x") || w.starts_with("0x") => {
                    let h = w.trim_start_matches("f0x").trim_start_matches("0x");
                    Opnd::C(u64::from_str_radix(h, 16).map_err(|_| format!("float {}", w))?)
                }
                "inf" | "nan" => return Err(w),
                _ => Opnd::C(self.const_expr(&w)?),
            },
            Tok::P('+') | Tok::P('-') => return Err("signed special float".into()),
            Tok::P('{') => {
                let mut v = Vec::new();
                while !self.eat('}') {
                    let t = self.ty()?;
                    v.push(self.operand(&t)?);
                    self.eat(',');
                }
                Opnd::Agg(v.into())
            }
            Tok::P('[') => {
                let mut v = Vec::new();
                while !self.eat(']') {
                    let t = self.ty()?;
                    v.push(self.operand(&t)?);
                    self.eat(',');
                }
                Opnd::Agg(v.into())
            }
            Tok::P('<') => {
                let packed = self.eat('{');
                let mut v = Vec::new();
                while !self.eat(if packed { '}' } else { '>' }) {
                    let t = self.ty()?;
                    v.push(self.operand(&t)?);
                    self.eat(',');
                }
                if packed {
                    self.expect('>')?;
                }
                Opnd::Agg(v.into())
            }
            Tok::CStr(b) => Opnd::Agg(b.iter().map(|x| Opnd::C(*x as u64)).collect::<Vec<_>>().into()),
            Tok::Meta => Opnd::C(0),
            t => return Err(format!("operand {:?}", t)),
        })
    }

    /// writes a constant initialiser into bytes
    fn init(&mut self, ty: &Ty, out: &mut [u8], off: u64, undef: &mut Vec<(u64, u64)>) -> R<()> {
        match self.peek() {
            Some(Tok::CStr(b)) => {
                let b = b.clone();
                out[off as usize..off as usize + b.len()].copy_from_slice(&b);
                self.i += 1;
                return Ok(());
            }
            Some(Tok::Word(w)) if w == "zeroinitializer" => {
                self.i += 1;
                return Ok(());
            }
            Some(Tok::Word(w)) if w == "undef" || w == "poison" => {
                self.i += 1;
                undef.push((off, ty.size()));
                return Ok(());
            }
            _ => {}
        }
        match ty {
            Ty::Struct(ts, packed) => {
                if *packed {
                    self.expect('<')?;
                }
                self.expect('{')?;
                for k in 0..ts.len() {
                    let t = self.ty()?;
                    let (o, _) = ty.field_offset(k as u64);
                    self.init(&t, out, off + o, undef)?;
                    self.eat(',');
                }
                self.expect('}')?;
                if *packed {
                    self.expect('>')?;
                }
            }
            Ty::Array(n, t) => {
                self.expect('[')?;
                for k in 0..*n {
                    let _ = self.ty()?;
                    self.init(t, out, off + k * t.size(), undef)?;
                    self.eat(',');
                }
                self.expect(']')?;
            }
            Ty::Vector(n, t) => {
                if self.eatw("splat") {
                    return Err("splat init".into());
                }
                self.expect('<')?;
                for k in 0..*n {
                    let _ = self.ty()?;
                    self.init(t, out, off + k * t.size(), undef)?;
                    self.eat(',');
                }
                self.expect('>')?;
            }
            _ => {
                let v = match self.operand(ty)? {
                    Opnd::C(v) => v as u128,
                    Opnd::W(v, _) => v,
                    Opnd::Undef(_) => 0,
                    o => return Err(format!("init {:?}", o)),
                };
                let n = ty.store_bytes() as usize;
                out[off as usize..off as usize + n].copy_from_slice(&v.to_le_bytes()[..n]);
            }
        }
        Ok(())
    }

    fn align_suffix(&mut self, default: u32) -> u32 {
        let mut a = default;
        while self.i < self.t.len() {
            if let (Some(Tok::Word(w)), Some(Tok::Int(v))) = (self.t.get(self.i), self.t.get(self.i + 1)) {
                if w == "align" {
                    a = *v as u32;
                }
            }
            self.i += 1;
        }
        a
    }

    fn edge(&mut self, from: &str, edges: &mut Vec<(String, String)>) -> R<u32> {
        if !self.eatw("label") {
            return Err("label".into());
        }
        let l = self.local()?;
        edges.push((from.to_string(), l));
        Ok(edges.len() as u32 - 1)
    }

    fn instr(&mut self, from: &str, edges: &mut Vec<(String, String)>) -> R<Instr> {
        let mut dname = None;
        if let (Some(Tok::Local(d)), Some(Tok::P('='))) = (self.t.first().cloned(), self.t.get(1)) {
            dname = Some(d);
            self.i = 2;
        }
        let op = match self.next()? {
            Tok::Word(w) => w,
            t => return Err(format!("opcode {:?}", t)),
        };
        macro_rules! dst {
            () => {
                self.reg(dname.as_ref().ok_or("no dst")?)
            };
        }
        let bin = match op.as_str() {
            "add" => Some(BinOp::Add),
            "sub" => Some(BinOp::Sub),
            "mul" => Some(BinOp::Mul),
            "udiv" => Some(BinOp::UDiv),
            "sdiv" => Some(BinOp::SDiv),
            "urem" => Some(BinOp::URem),
            "srem" => Some(BinOp::SRem),
            "and" => Some(BinOp::And),
            "or" => Some(BinOp::Or),
            "xor" => Some(BinOp::Xor),
            "shl" => Some(BinOp::Shl),
            "lshr" => Some(BinOp::LShr),
            "ashr" => Some(BinOp::AShr),
            _ => None,
        };
        if let Some(b) = bin {
            let ty = self.ty()?;
            if !ty.is_scalar() {
                return Err("vector arithmetic".into());
            }
            let a = self.operand(&ty)?;
            self.expect(',')?;
            let c = self.operand(&ty)?;
            return Ok(Instr::Bin { op: b, w: ty.bits(), dst: dst!(), a, b: c });
        }
        let fb = match op.as_str() {
            "fadd" => Some(FBin::Add),
            "fsub" => Some(FBin::Sub),
            "fmul" => Some(FBin::Mul),
            "fdiv" => Some(FBin::Div),
            "frem" => Some(FBin::Rem),
            _ => None,
        };
        if let Some(b) = fb {
            let ty = self.ty()?;
            if !ty.is_scalar() {
                return Err("vector arithmetic".into());
            }
            let a = self.operand(&ty)?;
            self.expect(',')?;
            let c = self.operand(&ty)?;
            return Ok(Instr::FBin { op: b, w: ty.bits(), dst: dst!(), a, b: c });
        }
        match op.as_str() {
            "fneg" => {
                let ty = self.ty()?;
                let a = self.operand(&ty)?;
                Ok(Instr::FNeg { w: ty.bits(), dst: dst!(), a })
            }
            "icmp" => {
                self.eatw("samesign");
                let p = match self.next()? {
                    Tok::Word(w) => w,
                    _ => return Err("pred".into()),
                };
                let p = match p.as_str() {
                    "eq" => Pred::Eq,
                    "ne" => Pred::Ne,
                    "ult" => Pred::Ult,
                    "ule" => Pred::Ule,
                    "ugt" => Pred::Ugt,
                    "uge" => Pred::Uge,
                    "slt" => Pred::Slt,
                    "sle" => Pred::Sle,
                    "sgt" => Pred::Sgt,
                    "sge" => Pred::Sge,
                    _ => return Err(format!("icmp {}", p)),
                };
                let ty = self.ty()?;
                if !ty.is_scalar() {
                    return Err("vector icmp".into());
                }
                let a = self.operand(&ty)?;
                self.expect(',')?;
                let b = self.operand(&ty)?;
                Ok(Instr::Icmp { p, w: ty.bits(), dst: dst!(), a, b })
            }
            "fcmp" => {
                // flags then predicate
                let mut mask = None;
                while let Some(Tok::Word(w)) = self.peek().cloned() {
                    // un=1 lt=2 gt=4 eq=8
                    let m = match w.as_str() {
                        "false" => Some(0),
                        "oeq" => Some(8),
                        "ogt" => Some(4),
                        "oge" => Some(12),
                        "olt" => Some(2),
                        "ole" => Some(10),
                        "one" => Some(6),
                        "ord" => Some(14),
                        "ueq" => Some(9),
                        "ugt" => Some(5),
                        "uge" => Some(13),
                        "ult" => Some(3),
                        "ule" => Some(11),
                        "une" => Some(7),
                        "uno" => Some(1),
                        "true" => Some(15),
                        _ => None,
                    };
                    self.i += 1;
                    if m.is_some() {
                        mask = m;
                        break;
                    }
                }
                let ty = self.ty()?;
                let a = self.operand(&ty)?;
                self.expect(',')?;
                let b = self.operand(&ty)?;
                Ok(Instr::Fcmp { mask: mask.ok_or("fcmp")?, w: ty.bits(), dst: dst!(), a, b })
            }
            "trunc" | "zext" | "sext" | "ptrtoint" | "inttoptr" | "bitcast" | "sitofp" | "uitofp" | "fptosi"
            | "fptoui" | "fpext" | "fptrunc" | "ptrtoaddr" | "addrspacecast" => {
                let ty = self.ty()?;
                let a = self.operand(&ty)?;
                if !self.eatw("to") {
                    return Err("to".into());
                }
                let t2 = self.ty()?;
                if !ty.is_scalar() || !t2.is_scalar() {
                    return Err("vector cast".into());
                }
                let c = match op.as_str() {
                    "trunc" => Cast::Trunc,
                    "zext" => Cast::ZExt,
                    "sext" => Cast::SExt,
                    "ptrtoint" | "inttoptr" | "ptrtoaddr" => {
                        if ty.bits() > t2.bits() {
                            Cast::Trunc
                        } else if ty.bits() < t2.bits() {
                            Cast::ZExt
                        } else {
                            Cast::Same
                        }
                    }
                    "bitcast" | "addrspacecast" => Cast::Same,
                    "sitofp" => Cast::SiToFp,
                    "uitofp" => Cast::UiToFp,
                    "fptosi" => Cast::FpToSi,
                    "fptoui" => Cast::FpToUi,
                    "fpext" => Cast::FpExt,
                    _ => Cast::FpTrunc,
                };
                Ok(Instr::Cast { op: c, from: ty.bits(), to: t2.bits(), dst: dst!(), a })
            }
            "select" => {
                let ct = self.ty()?;
                if !ct.is_scalar() {
                    return Err("vector select".into());
                }
                let c = self.operand(&ct)?;
                self.expect(',')?;
                let ty = self.ty()?;
                let a = self.operand(&ty)?;
                self.expect(',')?;
                let ty2 = self.ty()?;
                let b = self.operand(&ty2)?;
                Ok(Instr::Select { dst: dst!(), w: if ty == Ty::Ptr { 0xffff } else { ty.bits() }, c, a, b })
            }
            "getelementptr" => {
                let bt = self.ty()?;
                self.expect(',')?;
                let pt = self.ty()?;
                let base = self.operand(&pt)?;
                let mut cur = bt;
                let mut off = 0u64;
                let mut idx = Vec::new();
                let mut first = true;
                while self.eat(',') {
                    if self.peek() == Some(&Tok::Meta) {
                        break;
                    }
                    let it = self.ty()?;
                    let v = self.operand(&it)?;
                    let scale;
                    if first {
                        scale = cur.size();
                        first = false;
                    } else {
                        match &cur {
                            Ty::Array(_, t) | Ty::Vector(_, t) => {
                                scale = t.size();
                                let t = (**t).clone();
                                cur = t;
                            }
                            Ty::Struct(..) => {
                                if let Opnd::C(k) = v {
                                    let (o, t) = cur.field_offset(k);
                                    off = off.wrapping_add(o);
                                    cur = t;
                                    continue;
                                }
                                return Err("struct gep".into());
                            }
                            _ => return Err("gep".into()),
                        }
                    }
                    match v {
                        Opnd::C(k) => off = off.wrapping_add(sext(k, it.bits()).wrapping_mul(scale)),
                        o => idx.push((o, it.bits(), scale)),
                    }
                }
                Ok(Instr::Gep { dst: dst!(), base, off, idx })
            }
            "load" => {
                self.eatw("atomic");
                self.eatw("volatile");
                let ty = self.ty()?;
                self.expect(',')?;
                let pt = self.ty()?;
                let ptr = self.operand(&pt)?;
                let align = self.align_suffix(1);
                Ok(Instr::Load { dst: dst!(), ty, ptr, align })
            }
            "store" => {
                self.eatw("atomic");
                self.eatw("volatile");
                let ty = self.ty()?;
                let val = self.operand(&ty)?;
                self.expect(',')?;
                let pt = self.ty()?;
                let ptr = self.operand(&pt)?;
                let align = self.align_suffix(1);
                Ok(Instr::Store { ty, val, ptr, align })
            }
            "alloca" => {
                let ty = self.ty()?;
                let mut n = 1;
                let mut align = ty.size_align().1 as u32;
                if self.eat(',') {
                    if !matches!(self.peek(), Some(Tok::Word(w)) if w == "align") {
                        let it = self.ty()?;
                        match self.operand(&it)? {
                            Opnd::C(k) => n = k,
                            _ => return Err("dynamic alloca".into()),
                        }
                        self.eat(',');
                    }
                    align = self.align_suffix(align);
                }
                Ok(Instr::Alloca { dst: dst!(), size: ty.size() * n, align })
            }
            "call" | "tail" | "musttail" | "notail" | "invoke" => {
                if op != "call" && op != "invoke" && !self.eatw("call") {
                    return Err("tail".into());
                }
                self.skip_attrs();
                let ret = self.ty()?;
                // function type of varargs
                if self.peek() == Some(&Tok::P('(')) {
                    self.skip_parens();
                }
                let ct = self.next()?;
                let callee = match ct {
                    Tok::Global(n) => self.callee(&n),
                    Tok::Local(n) => Callee::Indirect(Opnd::R(self.reg(&n))),
                    Tok::Word(w) if w == "asm" => return Err("inline asm".into()),
                    t => return Err(format!("callee {:?}", t)),
                };
                self.expect('(')?;
                let mut args = Vec::new();
                let mut argw = Vec::new();
                while !self.eat(')') {
                    let t = self.ty()?;
                    if t == Ty::Other {
                        // metadata operand
                        self.next()?;
                        self.eat(',');
                        args.push(Opnd::C(0));
                        argw.push(0);
                        continue;
                    }
                    args.push(self.operand(&t)?);
                    argw.push(t.bits());
                    self.eat(',');
                }
                let mut inv = None;
                if op == "invoke" {
                    self.skip_attrs();
                    if self.peek() == Some(&Tok::P('[')) {
                        // operand bundle
                        while !self.eat(']') {
                            self.i += 1;
                        }
                    }
                    if !self.eatw("to") {
                        return Err("invoke to".into());
                    }
                    let n = self.edge(from, edges)?;
                    if !self.eatw("unwind") {
                        return Err("unwind".into());
                    }
                    let u = self.edge(from, edges)?;
                    inv = Some((n, u));
                }
                let dst = match &dname {
                    Some(d) => Some(self.reg(d)),
                    None => None,
                };
                Ok(Instr::Call(Box::new(CallI { dst, ret, callee, args, argw, invoke: inv })))
            }
            "extractvalue" => {
                let ty = self.ty()?;
                let agg = self.operand(&ty)?;
                let mut path = Vec::new();
                while self.eat(',') {
                    match self.peek() {
                        Some(Tok::Int(v)) => {
                            path.push(*v as u32);
                            self.i += 1;
                        }
                        _ => break,
                    }
                }
                Ok(Instr::Extract { dst: dst!(), agg, path })
            }
            "insertvalue" => {
                let ty = self.ty()?;
                let agg = self.operand(&ty)?;
                self.expect(',')?;
                let vt = self.ty()?;
                let val = self.operand(&vt)?;
                let mut path = Vec::new();
                while self.eat(',') {
                    match self.peek() {
                        Some(Tok::Int(v)) => {
                            path.push(*v as u32);
                            self.i += 1;
                        }
                        _ => break,
                    }
                }
                Ok(Instr::Insert { dst: dst!(), agg, val, path })
            }
            "freeze" => {
                let ty = self.ty()?;
                let a = self.operand(&ty)?;
                Ok(Instr::Freeze { dst: dst!(), w: ty.bits(), a })
            }
            "atomicrmw" => {
                self.eatw("volatile");
                let o = match self.next()? {
                    Tok::Word(w) => w,
                    _ => return Err("rmw".into()),
                };
                let o = match o.as_str() {
                    "add" => "add",
                    "sub" => "sub",
                    "xchg" => "xchg",
                    "or" => "or",
                    "and" => "and",
                    "xor" => "xor",
                    _ => return Err(format!("rmw {}", o)),
                };
                let pt = self.ty()?;
                let ptr = self.operand(&pt)?;
                self.expect(',')?;
                let ty = self.ty()?;
                let val = self.operand(&ty)?;
                Ok(Instr::Rmw { dst: dst!(), op: o, ty, ptr, val })
            }
            "cmpxchg" => {
                self.eatw("weak");
                self.eatw("volatile");
                let pt = self.ty()?;
                let ptr = self.operand(&pt)?;
                self.expect(',')?;
                let ty = self.ty()?;
                let cmp = self.operand(&ty)?;
                self.expect(',')?;
                let ty2 = self.ty()?;
                let new = self.operand(&ty2)?;
                Ok(Instr::CmpXchg { dst: dst!(), ty, ptr, cmp, new })
            }
            "fence" => Ok(Instr::Call(Box::new(CallI {
                dst: None,
                ret: Ty::Void,
                callee: Callee::Intr(Intr::Nop),
                args: vec![],
                argw: vec![],
                invoke: None,
            }))),
            "landingpad" => {
                let _ = self.ty()?;
                let (mut cleanup, mut filter, mut catch) = (false, false, false);
                while let Some(t) = self.peek() {
                    if let Tok::Word(w) = t {
                        match w.as_str() {
                            "cleanup" => cleanup = true,
                            "filter" => filter = true,
                            "catch" => catch = true,
                            _ => {}
                        }
                    }
                    self.i += 1;
                }
                Ok(Instr::Landing { dst: dst!(), cleanup, filter, catch })
            }
            "resume" => {
                let ty = self.ty()?;
                let a = self.operand(&ty)?;
                Ok(Instr::Resume { a })
            }
            "br" => {
                if let Some(Tok::Word(w)) = self.peek() {
                    if w == "label" {
                        let e = self.edge(from, edges)?;
                        return Ok(Instr::Br { e });
                    }
                }
                let ty = self.ty()?;
                let c = self.operand(&ty)?;
                self.expect(',')?;
                let t = self.edge(from, edges)?;
                self.expect(',')?;
                let f = self.edge(from, edges)?;
                Ok(Instr::CondBr { c, t, f })
            }
            "switch" => {
                let ty = self.ty()?;
                let v = self.operand(&ty)?;
                self.expect(',')?;
                let def = self.edge(from, edges)?;
                self.expect('[')?;
                let mut cases = Vec::new();
                while !self.eat(']') {
                    let t = self.ty()?;
                    let k = self.const_scalar(&t)?;
                    self.expect(',')?;
                    let e = self.edge(from, edges)?;
                    cases.push((k, e));
                }
                Ok(Instr::Switch { w: ty.bits(), v, def, cases })
            }
            "ret" => {
                let ty = self.ty()?;
                if ty == Ty::Void {
                    return Ok(Instr::Ret { v: None });
                }
                let v = self.operand(&ty)?;
                Ok(Instr::Ret { v: Some(v) })
            }
            "unreachable" => Ok(Instr::Unreachable),
            _ => Err(format!("opcode {}", op)),
        }
    }

    fn callee(&self, n: &str) -> Callee {
        if let Some(i) = intrinsic(n) {
            return Callee::Intr(i);
        }
        if let Some(f) = self.m.fnames.get(n) {
            let pretty = &self.m.fdefs[*f as usize].1;
            if let Some(i) = runtime_fn(n, pretty) {
                return Callee::Intr(i);
            }
            return Callee::Func(*f);
        }
        Callee::Unknown(n.into())
    }
}

/// Functions of the Rust runtime the engine models itself.
pub fn runtime_fn(n: &str, pretty: &str) -> Option<Intr> {
    Some(match pretty {
        "__rustc::__rust_alloc" => Intr::RustAlloc,
        "__rustc::__rust_alloc_zeroed" => Intr::RustAllocZeroed,
        "__rustc::__rust_dealloc" => Intr::RustDealloc,
        "__rustc::__rust_realloc" => Intr::RustRealloc,
        "__rustc::__rust_no_alloc_shim_is_unstable_v2" | "__rustc::__rust_no_alloc_shim_is_unstable" => Intr::Nop,
        "__rustc::rust_begin_unwind" => Intr::BeginUnwind,
        "std::panicking::resume_unwind" | "std::panic::resume_unwind" | "std::panicking::rust_panic_without_hook" => {
            Intr::ResumeUnwind
        }
        "alloc::alloc::handle_alloc_error" => Intr::HandleAllocError,
        "core::panicking::panic_in_cleanup"
        | "core::panicking::panic_cannot_unwind"
        | "core::panicking::panic_nounwind_fmt"
        | "std::process::abort" => Intr::Abort,
        _ => {
            if n == "abort" {
                Intr::Abort
            } else {
                return None;
            }
        }
    })
}

fn intrinsic(n: &str) -> Option<Intr> {
    if let Some(s) = n.strip_prefix("llvm.") {
        let is = |p: &str| s.starts_with(p);
        return Some(if is("lifetime.") || is("assume") || is("experimental.noalias") || is("dbg.") || is("donothing")
            || is("invariant.") || is("prefetch") || is("x86.sse2.pause") || is("sideeffect") || is("var.annotation")
        {
            Intr::Nop
        } else if is("memcpy") {
            Intr::MemCpy
        } else if is("memmove") {
            Intr::MemMove
        } else if is("memset") {
            Intr::MemSet
        } else if is("sadd.with") {
            Intr::SAddO
        } else if is("uadd.with") {
            Intr::UAddO
        } else if is("ssub.with") {
            Intr::SSubO
        } else if is("usub.with") {
            Intr::USubO
        } else if is("smul.with") {
            Intr::SMulO
        } else if is("umul.with") {
            Intr::UMulO
        } else if is("sadd.sat") {
            Intr::SAddSat
        } else if is("uadd.sat") {
            Intr::UAddSat
        } else if is("ssub.sat") {
            Intr::SSubSat
        } else if is("usub.sat") {
            Intr::USubSat
        } else if is("umin") {
            Intr::UMin
        } else if is("umax") {
            Intr::UMax
        } else if is("smin") {
            Intr::SMin
        } else if is("smax") {
            Intr::SMax
        } else if is("abs") {
            Intr::Abs
        } else if is("ctlz") {
            Intr::Ctlz
        } else if is("cttz") {
            Intr::Cttz
        } else if is("ctpop") {
            Intr::Ctpop
        } else if is("bswap") {
            Intr::Bswap
        } else if is("bitreverse") {
            Intr::BitReverse
        } else if is("fshl") {
            Intr::FShl
        } else if is("fshr") {
            Intr::FShr
        } else if is("ucmp") {
            Intr::UCmp
        } else if is("scmp") {
            Intr::SCmp
        } else if is("is.constant") {
            Intr::IsConstant
        } else if is("threadlocal.address") {
            Intr::ThreadLocalAddr
        } else if is("expect") {
            Intr::Expect
        } else if is("trap") {
            Intr::Trap
        } else if is("fptosi.sat.i64.f64") {
            Intr::FToSiSat(64)
        } else if is("fptosi.sat.i32.f64") {
            Intr::FToSiSat(32)
        } else if is("fabs.f64") {
            Intr::FAbs
        } else if is("sqrt.f64") {
            Intr::FSqrt
        } else if is("minnum.f64") || is("minimumnum.f64") {
            Intr::FMinNum
        } else if is("maxnum.f64") || is("maximumnum.f64") {
            Intr::FMaxNum
        } else if is("copysign.f64") {
            Intr::FCopysign
        } else if is("fma.f64") || is("fmuladd.f64") {
            Intr::FMulAdd
        } else if is("floor.f64") {
            Intr::FRound(0)
        } else if is("ceil.f64") {
            Intr::FRound(1)
        } else if is("trunc.f64") {
            Intr::FRound(2)
        } else if is("round.f64") {
            Intr::FRound(3)
        } else if is("rint.f64") || is("nearbyint.f64") || is("roundeven.f64") {
            Intr::FRound(4)
        } else if is("powi.f64.i32") {
            Intr::FPowi
        } else {
            return None;
        });
    }
    Some(match n {
        "sym_param" => Intr::SymParam,
        "sym_int" => Intr::SymInt,
        "sym_bool" => Intr::SymBool,
        "sym_choice" => Intr::SymChoice,
        "sym_assume" => Intr::SymAssume,
        "sym_assert" => Intr::SymAssert,
        "sym_cover" => Intr::SymCover,
        "sym_concretize" => Intr::SymConcretize,
        "sym_try" => Intr::SymTry,
        "sym_live" => Intr::SymLive,
        "sym_note" => Intr::SymNote,
        "sym_ite" => Intr::SymIte,
        "sym_panic" => Intr::SymPanic,
        "bcmp" | "memcmp" => Intr::Memcmp,
        "abort" => Intr::Abort,
        "memcpy" => Intr::MemCpy,
        "memmove" => Intr::MemMove,
        "memset" => Intr::MemSet,
        _ => return None,
    })
}

fn sext(v: u64, w: u32) -> u64 {
    if w == 0 || w >= 64 {
        v
    } else {
        let s = 64 - w;
        (((v << s) as i64) >> s) as u64
    }
}

pub fn undef_of(ty: &Ty) -> Opnd {
    match ty {
        Ty::Struct(ts, _) => Opnd::Agg(ts.iter().map(undef_of).collect::<Vec<_>>().into()),
        Ty::Array(n, t) | Ty::Vector(n, t) => Opnd::Agg((0..*n).map(|_| undef_of(t)).collect::<Vec<_>>().into()),
        t => Opnd::Undef(t.bits()),
    }
}
pub fn zero_of(ty: &Ty) -> Opnd {
    match ty {
        Ty::Struct(ts, _) => Opnd::Agg(ts.iter().map(zero_of).collect::<Vec<_>>().into()),
        Ty::Array(n, t) | Ty::Vector(n, t) => Opnd::Agg((0..*n).map(|_| zero_of(t)).collect::<Vec<_>>().into()),
        Ty::Int(w) if *w > 64 => Opnd::W(0, *w),
        _ => Opnd::C(0),
    }
}
