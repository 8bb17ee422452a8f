//@ include shim/base.vx
//@ path BinaryOp => BinaryOp
//@ include shim/errors.vx
// ---- C07: tokens and positions, against the lexical grammar ----
verus! {
//@ rule __e? => match __e { Ok(vx_x) => vx_x, Err(vx_e) => return Err(vx_e) }
//@ rule __e.is_some_and(|__p| __b) => match __e { Some(__p) => __b, None => false }
//@ rule __c.is_whitespace() => vx_ws(__c)
//@ rule __c.is_alphabetic() => vx_alpha(__c)
//@ rule __c.is_numeric() => vx_num(__c)
//@ rule __c.is_alphanumeric() => vx_alnum(__c)
//@ rule (__e).then(|| __b) => if __e { Some(__b) } else { None }
//@ rule __e.map_err(|__p| __b) => match __e { Ok(vx_x) => Ok(vx_x), Err(__p) => Err(__b) }
//@ rule Span::log_raw_fatal_error(__a) => Span::log_raw_fatal_error(vx_args(), &mut *vx_st)
//@ rule __s.log_error(__a) => __s.log_error(vx_args(), &mut *vx_st)
//@ rule String::from(__c) => vx_string_of(__c)

//@ rule __s.push(__c) => vx_push(&mut __s, __c)
//@ rule __s.len() => vx_str_len(&__s)
//@ rule __s.parse() => vx_parse(&__s)
//@ rule KEYWORDS.get(__k.as_str()).copied() => vx_keyword(&__k)
//@ rule BINARY_OPS.get(__k.as_str()).copied() => vx_binary_op(&__k)
//@ rule __s.next_char() => __s.next_char(&mut *vx_st)
//@ rule __s.handle_comment() => __s.handle_comment(&mut *vx_st)
//@ rule __s.handle_symbol() => __s.handle_symbol(&mut *vx_st)
//@ rule __s.handle_keyword() => __s.handle_keyword(&mut *vx_st)
//@ rule __s.handle_integer() => __s.handle_integer(&mut *vx_st)
//@ rule __s.handle_block_comment(__p) => __s.handle_block_comment(__p, &mut *vx_st)
//@ rule __s.log_err_and_skip(__p, __m) => __s.log_err_and_skip(__p, vx_msg(), &mut *vx_st)

#[verifier::external_body]
pub fn vx_msg() -> &'static str { unimplemented!() }

// ---- character classes of std, for Latin-1 characters ----
pub uninterp spec fn ws(c: char) -> bool;
pub uninterp spec fn alpha(c: char) -> bool;
pub uninterp spec fn num(c: char) -> bool;
pub open spec fn alnum(c: char) -> bool { alpha(c) || num(c) }
#[verifier::external_body]
pub fn vx_ws(c: char) -> (r: bool) ensures r == ws(c), { unimplemented!() }
#[verifier::external_body]
pub fn vx_alpha(c: char) -> (r: bool) ensures r == alpha(c), { unimplemented!() }
#[verifier::external_body]
pub fn vx_num(c: char) -> (r: bool) ensures r == num(c), { unimplemented!() }
#[verifier::external_body]
pub fn vx_alnum(c: char) -> (r: bool) ensures r == alnum(c), { unimplemented!() }

// ---- strings ----
#[verifier::external_body]
pub fn vx_string_of(c: char) -> (r: String) ensures r@ == seq![c], { unimplemented!() }
#[verifier::external_body]
pub fn vx_empty_string() -> (r: String) ensures r@ == Seq::<char>::empty(), { unimplemented!() }
#[verifier::external_body]
pub fn vx_push(s: &mut String, c: char) ensures final(s)@ == old(s)@.push(c), { unimplemented!() }
/// length in bytes
#[verifier::external_body]
pub fn vx_str_len(s: &String) -> (r: usize)
    ensures r >= s@.len(), s@.len() == 1 && (s@[0] == '@' || s@[0] == '%') ==> r == 1,
{ unimplemented!() }
/// the value of a decimal literal, if it is one and fits
pub open spec fn digits(s: Seq<char>) -> Option<int>
    decreases s.len(),
{
    if s.len() == 0 { Some(0) } else {
        let c = s.last() as int - '0' as int;
        match digits(s.drop_last()) { Some(v) if 0 <= c <= 9 => Some(v * 10 + c), _ => None }
    }
}
pub open spec fn int_of(s: Seq<char>) -> Option<i64> {
    let neg = s.len() > 0 && s[0] == '-';
    let d = if neg { s.skip(1) } else { s };
    if d.len() == 0 { None } else {
        match digits(d) {
            Some(v) => { let w = if neg { -v } else { v }; if i64::MIN <= w <= i64::MAX { Some(w as i64) } else { None } },
            None => None,
        }
    }
}
/// str::parse::<i64> of a text that does not begin with a plus sign
#[verifier::external_body]
pub fn vx_parse(s: &String) -> (r: Result<i64, ()>)
    ensures match r { Ok(v) => int_of(s@) == Some(v), Err(_) => int_of(s@) is None },
{ unimplemented!() }

// ---- the input ----
#[verifier::external_body]
pub struct IoError { x: usize }
/// A reader that yields the bytes of `data` in order, or fails.
pub trait Read: Sized {
    spec fn data(&self) -> Seq<u8>;
    spec fn at(&self) -> nat;
    spec fn failed(&self) -> bool;
    fn read(&mut self, buf: &mut [u8; 1]) -> (r: Result<usize, IoError>)
        requires old(self).at() <= old(self).data().len(),
        ensures
            final(self).data() == old(self).data(),
            match r {
                Ok(n) => final(self).failed() == old(self).failed() && if old(self).at() < old(self).data().len() {
                    n == 1 && final(buf)@[0] == old(self).data()[old(self).at() as int] && final(self).at() == old(self).at() + 1
                } else { n == 0 && final(self).at() == old(self).at() },
                Err(_) => final(self).failed() && final(self).at() == old(self).at(),
            };
}

//@ item ir::values::BinaryOp #[derive(Clone, Copy, PartialEq, Eq, Structural)]
//@ item front::token::Keyword #[derive(Clone, Copy, PartialEq, Eq, Structural)]
//@ item front::token::TokenKind
//@ item front::token::Token
//@ item front::lexer::Lexer #[verifier::reject_recursive_types(T)]
//@ phf front::lexer::KEYWORDS Keyword vx_keyword
//@ phf front::lexer::BINARY_OPS BinaryOp vx_binary_op

// ---- the lexical grammar ----
/// The keywords and operators of the language.
pub open spec fn keyword(s: Seq<char>) -> Option<Keyword> {
    if s == seq!['a', 'l', 'l', 'o', 'c'] { Some(Keyword::Alloc) }
    else if s == seq!['b', 'r'] { Some(Keyword::Br) }
    else if s == seq!['c', 'a', 'l', 'l'] { Some(Keyword::Call) }
    else if s == seq!['d', 'e', 'c', 'l'] { Some(Keyword::Decl) }
    else if s == seq!['f', 'u', 'n'] { Some(Keyword::Fun) }
    else if s == seq!['g', 'e', 't', 'e', 'l', 'e', 'm', 'p', 't', 'r'] { Some(Keyword::GetElemPtr) }
    else if s == seq!['g', 'e', 't', 'p', 't', 'r'] { Some(Keyword::GetPtr) }
    else if s == seq!['g', 'l', 'o', 'b', 'a', 'l'] { Some(Keyword::Global) }
    else if s == seq!['i', '3', '2'] { Some(Keyword::I32) }
    else if s == seq!['j', 'u', 'm', 'p'] { Some(Keyword::Jump) }
    else if s == seq!['l', 'o', 'a', 'd'] { Some(Keyword::Load) }
    else if s == seq!['r', 'e', 't'] { Some(Keyword::Ret) }
    else if s == seq!['s', 't', 'o', 'r', 'e'] { Some(Keyword::Store) }
    else if s == seq!['u', 'n', 'd', 'e', 'f'] { Some(Keyword::Undef) }
    else if s == seq!['z', 'e', 'r', 'o', 'i', 'n', 'i', 't'] { Some(Keyword::ZeroInit) }
    else { None }
}
pub open spec fn operator(s: Seq<char>) -> Option<BinaryOp> {
    if s == seq!['a', 'd', 'd'] { Some(BinaryOp::Add) }
    else if s == seq!['a', 'n', 'd'] { Some(BinaryOp::And) }
    else if s == seq!['d', 'i', 'v'] { Some(BinaryOp::Div) }
    else if s == seq!['e', 'q'] { Some(BinaryOp::Eq) }
    else if s == seq!['g', 'e'] { Some(BinaryOp::Ge) }
    else if s == seq!['g', 't'] { Some(BinaryOp::Gt) }
    else if s == seq!['l', 'e'] { Some(BinaryOp::Le) }
    else if s == seq!['l', 't'] { Some(BinaryOp::Lt) }
    else if s == seq!['m', 'o', 'd'] { Some(BinaryOp::Mod) }
    else if s == seq!['m', 'u', 'l'] { Some(BinaryOp::Mul) }
    else if s == seq!['n', 'e'] { Some(BinaryOp::NotEq) }
    else if s == seq!['o', 'r'] { Some(BinaryOp::Or) }
    else if s == seq!['s', 'a', 'r'] { Some(BinaryOp::Sar) }
    else if s == seq!['s', 'h', 'l'] { Some(BinaryOp::Shl) }
    else if s == seq!['s', 'h', 'r'] { Some(BinaryOp::Shr) }
    else if s == seq!['s', 'u', 'b'] { Some(BinaryOp::Sub) }
    else if s == seq!['x', 'o', 'r'] { Some(BinaryOp::Xor) }
    else { None }
}
pub proof fn tables_are_those_of_the_grammar(s: Seq<char>)
    ensures KEYWORDS_table(s) == keyword(s), BINARY_OPS_table(s) == operator(s),
{}

pub enum Class { Ws, NonWs, Num, Alnum, Sym, Line }
pub open spec fn of(k: Class, c: char) -> bool {
    match k {
        Class::Ws => ws(c),
        Class::NonWs => !ws(c),
        Class::Num => num(c),
        Class::Alnum => alnum(c),
        Class::Sym => alnum(c) || c == '_',
        Class::Line => c != '\r' && c != '\n',
    }
}
/// The end of the longest run of characters of the class that begins at `i`.
pub open spec fn run(t: Seq<char>, i: int, k: Class) -> int
    decreases t.len() - i,
{
    if 0 <= i < t.len() && of(k, t[i]) { run(t, i + 1, k) } else { i }
}
pub proof fn lemma_run(t: Seq<char>, i: int, k: Class)
    requires 0 <= i <= t.len(),
    ensures
        i <= run(t, i, k) <= t.len(),
        run(t, i, k) < t.len() ==> !of(k, t[run(t, i, k)]),
        forall|j: int| i <= j < run(t, i, k) ==> of(k, #[trigger] t[j]),
    decreases t.len() - i,
{
    if i < t.len() && of(k, t[i]) { lemma_run(t, i + 1, k); }
}
/// The first `*/` at or after `i`: the index of its star, or the end of the text.
pub open spec fn close(t: Seq<char>, i: int) -> int
    decreases t.len() - i,
{
    if 0 <= i && i + 1 < t.len() { if t[i] == '*' && t[i + 1] == '/' { i } else { close(t, i + 1) } } else { t.len() as int }
}
pub proof fn lemma_close(t: Seq<char>, i: int)
    requires 0 <= i <= t.len(),
    ensures i <= close(t, i) <= t.len(), close(t, i) < t.len() ==> close(t, i) + 1 < t.len() && t[close(t, i)] == '*' && t[close(t, i) + 1] == '/',
    decreases t.len() - i,
{
    if i + 1 < t.len() { lemma_close(t, i + 1); }
}
/// A comment that begins at `i`: is it well formed, and where does reading go on.
pub open spec fn comment(t: Seq<char>, i: int) -> (bool, int) {
    if i + 1 < t.len() && t[i + 1] == '/' { (true, run(t, i + 1, Class::Line)) }
    else if i + 1 < t.len() && t[i + 1] == '*' {
        let e = close(t, i + 2);
        if e < t.len() { (true, e + 2) } else { (false, t.len() as int) }
    } else { (false, run(t, i + 1, Class::NonWs)) }
}
pub proof fn lemma_comment(t: Seq<char>, i: int)
    requires 0 <= i < t.len(),
    ensures i < comment(t, i).1 <= t.len(),
{
    if i + 1 < t.len() && t[i + 1] == '*' { lemma_close(t, i + 2); }
    lemma_run(t, i + 1, Class::Line);
    lemma_run(t, i + 1, Class::NonWs);
}
/// The kind of a token.
pub enum TK { Int(i64), Symbol(Seq<char>), Keyword(Keyword), BinaryOp(BinaryOp), Other(char), End }
/// A token with its first and last character and where reading goes on, or an error.
pub enum Lx { Tok { k: TK, a: int, b: int, n: int }, Bad { n: int } }
pub open spec fn symbol(t: Seq<char>, i: int) -> Lx {
    if i + 1 < t.len() && num(t[i + 1]) && t[i] == '@' { Lx::Bad { n: run(t, i + 1, Class::NonWs) } }
    else {
        let e = if i + 1 < t.len() && num(t[i + 1]) {
            if t[i + 1] == '0' { i + 2 } else { run(t, i + 2, Class::Num) }
        } else { run(t, i + 1, Class::Sym) };
        if e == i + 1 { Lx::Bad { n: run(t, e, Class::NonWs) } } else { Lx::Tok { k: TK::Symbol(t.subrange(i, e)), a: i, b: e - 1, n: e } }
    }
}
pub open spec fn word(t: Seq<char>, i: int) -> Lx {
    let e = run(t, i, Class::Alnum);
    let s = t.subrange(i, e);
    match (keyword(s), operator(s)) {
        (Some(k), _) => Lx::Tok { k: TK::Keyword(k), a: i, b: e - 1, n: e },
        (None, Some(o)) => Lx::Tok { k: TK::BinaryOp(o), a: i, b: e - 1, n: e },
        (None, None) => Lx::Bad { n: run(t, e, Class::NonWs) },
    }
}
pub open spec fn integer(t: Seq<char>, i: int) -> Lx {
    let e = run(t, i + 1, Class::Num);
    match int_of(t.subrange(i, e)) {
        Some(v) => Lx::Tok { k: TK::Int(v), a: i, b: e - 1, n: e },
        None => Lx::Bad { n: run(t, e, Class::NonWs) },
    }
}
/// The next token at or after `i`.
pub open spec fn lex(t: Seq<char>, i: int) -> Lx
    decreases t.len() - i,
    via lex_decreases
{
    if i < 0 || i > t.len() { arbitrary() } else {
        let j = run(t, i, Class::Ws);
        if j >= t.len() { Lx::Tok { k: TK::End, a: t.len() - 1, b: t.len() - 1, n: t.len() as int } }
        else if t[j] == '/' { let (ok, n) = comment(t, j); if ok { lex(t, n) } else { Lx::Bad { n } } }
        else if t[j] == '@' || t[j] == '%' { symbol(t, j) }
        else if alpha(t[j]) { word(t, j) }
        else if num(t[j]) || t[j] == '-' { integer(t, j) }
        else { Lx::Tok { k: TK::Other(t[j]), a: j, b: j, n: j + 1 } }
    }
}
#[via_fn]
proof fn lex_decreases(t: Seq<char>, i: int) {
    if 0 <= i <= t.len() {
        lemma_run(t, i, Class::Ws);
        if run(t, i, Class::Ws) < t.len() { lemma_comment(t, run(t, i, Class::Ws)); }
    }
}
/// what the parser relies on (C08): names have two characters or more, the end is the end
pub proof fn lemma_names(t: Seq<char>, i: int)
    requires 0 <= i <= t.len(),
    ensures match lex(t, i) {
        Lx::Tok { k: TK::Symbol(n), .. } => n.len() > 1 && (n[0] == '%' || n[0] == '@'),
        Lx::Tok { k: TK::End, n, .. } => n == t.len(),
        _ => true,
    },
    decreases t.len() - i,
{
    lemma_run(t, i, Class::Ws);
    let j = run(t, i, Class::Ws);
    if j < t.len() {
        if t[j] == '/' { lemma_comment(t, j); let (ok, n) = comment(t, j); if ok { lemma_names(t, n); } }
        else if t[j] == '@' || t[j] == '%' {
            lemma_run(t, j + 1, Class::NonWs); lemma_run(t, j + 1, Class::Sym);
            if j + 2 <= t.len() { lemma_run(t, j + 2, Class::Num); }
        }
    }
}
pub open spec fn kind_is(k: TokenKind, w: TK) -> bool {
    match (k, w) {
        (TokenKind::Int(a), TK::Int(b)) => a == b,
        (TokenKind::Symbol(a), TK::Symbol(b)) => a@ =~= b,
        (TokenKind::Keyword(a), TK::Keyword(b)) => a == b,
        (TokenKind::BinaryOp(a), TK::BinaryOp(b)) => a == b,
        (TokenKind::Other(a), TK::Other(b)) => a == b,
        (TokenKind::End, TK::End) => true,
        _ => false,
    }
}

// ---- positions ----
/// The position of character `i`: lines from 1, columns count the characters of the line read so far.
pub open spec fn pos_of(t: Seq<char>, i: int) -> Pos
    decreases i,
{
    if i <= 0 { Pos { line: 1, col: 0 } } else {
        let p = pos_of(t, i - 1);
        if t[i] == '\n' { Pos { line: (p.line + 1) as u32, col: 0 } } else { Pos { line: p.line, col: (p.col + 1) as u32 } }
    }
}
pub proof fn lemma_pos(t: Seq<char>, i: int)
    requires 0 <= i < 0xffff_fff0,
    ensures pos_of(t, i).line <= i + 1, pos_of(t, i).col <= i,
    decreases i,
{
    if i > 0 { lemma_pos(t, i - 1); }
}
/// `a` is not behind `b`
pub open spec fn pos_le(a: Pos, b: Pos) -> bool { a.line < b.line || a.line == b.line && a.col <= b.col }
pub broadcast proof fn lemma_pos_le(t: Seq<char>, i: int, j: int)
    requires i <= j < 0xffff_fff0,
    ensures pos_le(#[trigger] pos_of(t, i), #[trigger] pos_of(t, j)), 1 <= pos_of(t, i).line, pos_of(t, j).line < 0xffff_fff8,
    decreases j - i, j,
{
    if j > 0 { lemma_pos(t, j); lemma_pos(t, j - 1); if i < j { lemma_pos_le(t, i, j - 1); } else { lemma_pos_le(t, i - 1, j - 1); } }
}
/// where characters `i` to `j` are
pub proof fn lemma_span(t: Seq<char>, s: Span, i: int, j: int)
    requires i <= j < 0xffff_fff0, s.start == pos_of(t, i), s.end == pos_of(t, j),
    ensures s.ordered(),
{ lemma_pos_le(t, i, j); }
/// what the parser relies on (C17): tokens follow each other in the text
pub proof fn lemma_tokens_in_order(t: Seq<char>, i: int)
    requires 0 <= i <= t.len(), 0 < t.len(),
    ensures match lex(t, i) {
        Lx::Tok { k, a, b, n } => i - 1 <= a <= b <= n - 1 && n <= t.len() && (i <= a || k is End),
        Lx::Bad { n } => i <= n <= t.len(),
    },
    decreases t.len() - i,
{
    lemma_run(t, i, Class::Ws);
    let j = run(t, i, Class::Ws);
    if j < t.len() {
        lemma_run(t, j, Class::Alnum);
        lemma_run(t, j + 1, Class::NonWs); lemma_run(t, j + 1, Class::Sym); lemma_run(t, j + 1, Class::Num);
        lemma_run(t, run(t, j, Class::Alnum), Class::NonWs); lemma_run(t, run(t, j + 1, Class::Sym), Class::NonWs); lemma_run(t, run(t, j + 1, Class::Num), Class::NonWs);
        if j + 2 <= t.len() { lemma_run(t, j + 2, Class::Num); }
        if t[j] == '/' { lemma_comment(t, j); let (ok, n) = comment(t, j); if ok { lemma_tokens_in_order(t, n); } }
    }
}
impl Pos {
//@ fn front::span::Pos::new
    ensures r == (Pos { line: 1, col: 0 }),
//@ end
//@ fn front::span::Pos::update
    requires old(self).line < 0xffff_ffff, old(self).col < 0xffff_ffff,
    ensures *final(self) == if c == '\n' { Pos { line: (old(self).line + 1) as u32, col: 0 } } else { Pos { line: old(self).line, col: (old(self).col + 1) as u32 } },
//@ end
}
impl Span {
//@ fn front::span::Span::new
    ensures r.start == start, r.end == start,
//@ end
//@ fn front::span::Span::update
    ensures final(self).start == old(self).start, final(self).end == end,
//@ end
//@ fn front::span::Span::into_updated
    ensures r.start == self.start, r.end == end,
//@ end
}
impl Token {
//@ fn front::token::Token::new
    ensures r.span == span, r.kind == kind,
//@ end
}

// ---- the lexer ----
impl<T: Read> Lexer<T> {
    /// the whole text, behind the blank the lexer starts with
    pub open spec fn text(&self) -> Seq<char> {
        seq![' '] + self.reader.data().map_values(|b: u8| b as char)
    }
    /// the character the lexer looks at
    pub open spec fn idx(&self) -> int {
        if self.last_char is Some { self.reader.at() as int } else { self.reader.data().len() as int + 1 }
    }
    pub open spec fn wf(&self) -> bool {
        &&& self.reader.at() <= self.reader.data().len() < 0xffff_fff0
        &&& !self.reader.failed()
        &&& self.core()
    }
    pub open spec fn core(&self) -> bool {
        &&& self.reader.at() <= self.reader.data().len() < 0xffff_fff0
        &&& self.last_char is None ==> self.reader.at() == self.reader.data().len()
        &&& self.last_char is Some ==> self.last_char->0 == self.text()[self.reader.at() as int]
        &&& self.pos == pos_of(self.text(), self.reader.at() as int)
    }
    /// same text, read up to `i`, and the reader did not fail
    pub open spec fn moved(&self, o: Self, i: int) -> bool {
        self.wf() && self.reader.data() == o.reader.data() && self.idx() == i
    }
    /// the reader failed: a fatal error was reported
    pub open spec fn broken(&self, o: Self, e: Error, st: GlobalState, st0: GlobalState) -> bool {
        self.reader.failed() && e is Fatal && st.plus_error(st0) && self.core() && self.reader.data() == o.reader.data()
    }
    /// what `lex` prescribes happened
    pub open spec fn did(&self, o: Self, x: Lx, r: Result<Token, Error>, st: GlobalState, st0: GlobalState) -> bool {
        match r {
            Ok(k) => match x {
                Lx::Tok { k: w, a, b, n } => kind_is(k.kind, w) && k.span.start == pos_of(o.text(), a) && k.span.end == pos_of(o.text(), b) && self.moved(o, n) && st == st0,
                Lx::Bad { n } => false,
            },
            Err(e) => self.broken(o, e, st, st0) || match x {
                Lx::Tok { .. } => false,
                Lx::Bad { n } => e is Normal && st.plus_error(st0) && self.moved(o, n),
            },
        }
    }
//@ fn front::lexer::Lexer::new
    requires reader.at() == 0, reader.data().len() < 0xffff_fff0, !reader.failed(),
    ensures r.wf(), r.reader == reader, r.idx() == 0, r.seen() == (Pos { line: 1, col: 0 }),
//@ end
//@ fn front::lexer::Lexer::next_char
    requires old(self).wf(), old(vx_st).room(),
    ensures
        match r {
            Ok(_) => final(self).moved(*old(self), if old(self).last_char is Some { old(self).idx() + 1 } else { old(self).idx() }) && *final(vx_st) == *old(vx_st),
            Err(e) => final(self).broken(*old(self), e, *final(vx_st), *old(vx_st)),
        },
//@ sig
pub fn next_char(&mut self, vx_st: &mut GlobalState) -> (r: std::result::Result<(), Error>)
//@ entry
        proof { lemma_pos(self.text(), self.reader.at() as int); }
//@ end
//@ fn front::lexer::Lexer::log_err_and_skip
    requires span.ordered(), old(self).wf(), old(vx_st).room(),
    ensures
        match r {
            Ok(_) => false,
            Err(e) => final(self).broken(*old(self), e, *final(vx_st), *old(vx_st)) || e is Normal && final(vx_st).plus_error(*old(vx_st)) && final(self).moved(*old(self), run(old(self).text(), old(self).idx(), Class::NonWs)),
        },
//@ sig
pub fn log_err_and_skip<U>(&mut self, span: Span, message: &str, vx_st: &mut GlobalState) -> (r: std::result::Result<U, Error>)
//@ entry
        let ghost g0 = *self; let ghost t = self.text();
//@ loop 0
    invariant
        self.moved(g0, self.idx()), g0 == *old(self), t == g0.text(), *vx_st == *old(vx_st), old(vx_st).room(),
        run(t, self.idx(), Class::NonWs) == run(t, g0.idx(), Class::NonWs),
    ensures
        self.moved(g0, run(t, g0.idx(), Class::NonWs)),
    decreases t.len() - self.idx(),
//@ end
//@ fn front::lexer::Lexer::handle_integer
    requires old(self).wf(), old(self).last_char is Some, old(vx_st).room(),
    ensures final(self).did(*old(self), integer(old(self).text(), old(self).idx()), r, *final(vx_st), *old(vx_st)),
//@ sig
pub fn handle_integer(&mut self, vx_st: &mut GlobalState) -> (r: Result<Token, Error>)
//@ entry
        broadcast use lemma_pos_le;
        let ghost g0 = *self; let ghost t = self.text(); let ghost i0 = self.idx();
//@ loop 0
    invariant
        self.moved(g0, self.idx()), g0 == *old(self), t == g0.text(), i0 == g0.idx(), *vx_st == *old(vx_st), old(vx_st).room(), 0 <= i0 < self.idx() <= t.len(),
        run(t, self.idx(), Class::Num) == run(t, i0 + 1, Class::Num),
        num@ == t.subrange(i0, self.idx()), span.start == pos_of(t, i0), span.end == pos_of(t, self.idx() - 1),
    ensures
        self.moved(g0, run(t, i0 + 1, Class::Num)),
    decreases t.len() - self.idx(),
//@ end
//@ fn front::lexer::Lexer::handle_symbol
    requires old(self).wf(), old(self).last_char == Some('@') || old(self).last_char == Some('%'), old(vx_st).room(),
    ensures final(self).did(*old(self), symbol(old(self).text(), old(self).idx()), r, *final(vx_st), *old(vx_st)),
//@ sig
pub fn handle_symbol(&mut self, vx_st: &mut GlobalState) -> (r: Result<Token, Error>)
//@ entry
        broadcast use lemma_pos_le;
        let ghost g0 = *self; let ghost t = self.text(); let ghost i0 = self.idx();
//@ loop 0
    invariant
        self.moved(g0, self.idx()), g0 == *old(self), t == g0.text(), i0 == g0.idx(), *vx_st == *old(vx_st), old(vx_st).room(), 0 <= i0, i0 + 1 < self.idx() <= t.len(),
        run(t, self.idx(), Class::Num) == run(t, i0 + 2, Class::Num),
        symbol@ == t.subrange(i0, self.idx()), span.start == pos_of(t, i0), span.end == pos_of(t, self.idx() - 1),
    ensures
        self.moved(g0, run(t, i0 + 2, Class::Num)),
    decreases t.len() - self.idx(),
//@ loop 1
    invariant
        self.moved(g0, self.idx()), g0 == *old(self), t == g0.text(), i0 == g0.idx(), *vx_st == *old(vx_st), old(vx_st).room(), 0 <= i0 < self.idx() <= t.len(),
        run(t, self.idx(), Class::Sym) == run(t, i0 + 1, Class::Sym),
        symbol@ == t.subrange(i0, self.idx()), span.start == pos_of(t, i0), span.end == pos_of(t, self.idx() - 1),
    ensures
        self.moved(g0, run(t, i0 + 1, Class::Sym)),
    decreases t.len() - self.idx(),
//@ end
//@ fn front::lexer::Lexer::handle_keyword
    requires old(self).wf(), old(self).last_char is Some, alpha(old(self).last_char->0), old(vx_st).room(),
    ensures final(self).did(*old(self), word(old(self).text(), old(self).idx()), r, *final(vx_st), *old(vx_st)),
//@ sig
pub fn handle_keyword(&mut self, vx_st: &mut GlobalState) -> (r: Result<Token, Error>)
//@ entry
        broadcast use lemma_pos_le;
        let ghost g0 = *self; let ghost t = self.text(); let ghost i0 = self.idx();
//@ loop 0
    invariant
        self.moved(g0, self.idx()), g0 == *old(self), t == g0.text(), i0 == g0.idx(), *vx_st == *old(vx_st), old(vx_st).room(), 0 <= i0 <= self.idx() <= t.len(),
        run(t, self.idx(), Class::Alnum) == run(t, i0, Class::Alnum), i0 < t.len(), alpha(t[i0]),
        keyword@ == t.subrange(i0, self.idx()), span.start == pos_of(t, i0), span.end == pos_of(t, if self.idx() == i0 { i0 } else { self.idx() - 1 }),
    ensures
        self.moved(g0, run(t, i0, Class::Alnum)), i0 < self.idx(),
    decreases t.len() - self.idx(),
//@ afterloop 0
        proof { tables_are_those_of_the_grammar(keyword@); }
//@ end
//@ fn front::lexer::Lexer::handle_block_comment
    requires
        old(self).wf(), old(self).last_char == Some('*'), old(self).idx() >= 1, old(vx_st).room(), span.start == pos_of(old(self).text(), old(self).idx() - 1),
        old(self).text()[old(self).idx() - 1] == '/',
    ensures final(self).commented(*old(self), comment(old(self).text(), old(self).idx() - 1), r, *final(vx_st), *old(vx_st)),
//@ sig
pub fn handle_block_comment(&mut self, span: Span, vx_st: &mut GlobalState) -> (r: std::result::Result<(), Error>)
//@ entry
        broadcast use lemma_pos_le;
        let ghost g0 = *self; let ghost t = self.text(); let ghost i0 = self.idx();
//@ loop 0
    invariant
        self.moved(g0, self.idx()), g0 == *old(self), t == g0.text(), i0 == g0.idx(), *vx_st == *old(vx_st), old(vx_st).room(), 1 <= i0 < self.idx() <= t.len(),
        star == (self.idx() > i0 + 1 && t[self.idx() - 1] == '*'),
        close(t, i0 + 1) == close(t, if self.idx() > i0 + 1 { self.idx() - 1 } else { i0 + 1 }),
        t[i0] == '*', old(self).last_char == Some('*'), old(self).wf(), span.start == pos_of(t, i0 - 1),
        star && self.last_char == Some('/') ==> close(t, i0 + 1) == self.idx() - 1 && comment(t, i0 - 1) == (true, self.idx() + 1),
        self.last_char is None ==> close(t, i0 + 1) == t.len() && comment(t, i0 - 1) == (false, t.len() as int),
    decreases t.len() - self.idx(),
//@ bodyend 0
        proof {
            let j = self.idx();
            assert(self.text() == t);
            if self.last_char is Some { assert(t[j] == self.last_char->0); }
            reveal_with_fuel(close, 3);
            assert(star && self.last_char == Some('/') ==> close(t, j - 1) == j - 1);
            assert(close(t, i0 + 1) == close(t, if j > i0 + 1 { j - 1 } else { i0 + 1 }));
        }
//@ end
//@ fn front::lexer::Lexer::handle_comment
    requires old(self).wf(), old(self).last_char == Some('/'), old(vx_st).room(),
    ensures final(self).commented(*old(self), comment(old(self).text(), old(self).idx()), r, *final(vx_st), *old(vx_st)),
//@ sig
pub fn handle_comment(&mut self, vx_st: &mut GlobalState) -> (r: std::result::Result<(), Error>)
//@ entry
        broadcast use lemma_pos_le;
        let ghost g0 = *self; let ghost t = self.text(); let ghost i0 = self.idx();
//@ loop 0
    invariant
        self.moved(g0, self.idx()), g0 == *old(self), t == g0.text(), i0 == g0.idx(), *vx_st == *old(vx_st), old(vx_st).room(), 0 <= i0 < self.idx() <= t.len(),
        run(t, self.idx(), Class::Line) == run(t, i0 + 1, Class::Line),
    ensures
        self.moved(g0, run(t, i0 + 1, Class::Line)),
    decreases t.len() - self.idx(),
//@ end
    /// what `comment` prescribes happened
    pub open spec fn commented(&self, o: Self, x: (bool, int), r: Result<(), Error>, st: GlobalState, st0: GlobalState) -> bool {
        match r {
            Ok(_) => x.0 && self.moved(o, x.1) && st == st0,
            Err(e) => self.broken(o, e, st, st0) || !x.0 && e is Normal && st.plus_error(st0) && self.moved(o, x.1),
        }
    }
//@ fn front::lexer::Lexer::next_token
    requires old(self).wf(), old(vx_st).room(),
    ensures final(self).did(*old(self), lex(old(self).text(), old(self).idx()), r, *final(vx_st), *old(vx_st)),
//@ sig
pub fn next_token(&mut self, vx_st: &mut GlobalState) -> (r: Result<Token, Error>)
//@ entry
        let ghost g0 = *self; let ghost t = self.text(); let ghost i0 = self.idx();
//@ loop 0
    invariant
        self.moved(g0, self.idx()), g0 == *old(self), t == g0.text(), i0 == g0.idx(), *vx_st == *old(vx_st), old(vx_st).room(), 0 <= i0 <= self.idx() <= t.len(),
        lex(t, self.idx()) == lex(t, i0),
    ensures
        self.moved(g0, self.idx()), lex(t, self.idx()) == lex(t, i0), self.last_char != Some('/'), run(t, self.idx(), Class::Ws) == self.idx(),
    decreases t.len() - self.idx(),
//@ loopstart 0
        let ghost j0 = self.idx();
        proof { lemma_run(t, j0, Class::Ws); }
//@ loop 1
    invariant
        self.moved(g0, self.idx()), g0 == *old(self), t == g0.text(), i0 == g0.idx(), *vx_st == *old(vx_st), old(vx_st).room(), 0 <= i0 <= j0 <= self.idx() <= t.len(),
        run(t, self.idx(), Class::Ws) == run(t, j0, Class::Ws), 
        lex(t, j0) == lex(t, i0),
    ensures
        self.moved(g0, run(t, j0, Class::Ws)), run(t, self.idx(), Class::Ws) == self.idx(), lex(t, self.idx()) == lex(t, i0), j0 <= self.idx() <= t.len(),
    decreases t.len() - self.idx(),
//@ afterloop 1
        proof { if self.idx() < t.len() { lemma_comment(t, self.idx()); } }
//@ end
    /// where reading is
    pub open spec fn seen(&self) -> Pos { pos_of(self.text(), self.idx() - 1) }
    /// what the parser relies on (C17): tokens have ordered spans and follow each other
    proof fn lemma_next_token_in_order(self, o: Self, r: Result<Token, Error>, st: GlobalState, st0: GlobalState)
        requires o.wf(), self.did(o, lex(o.text(), o.idx()), r, st, st0),
        ensures
            r is Ok ==> r->Ok_0.span.ordered() && pos_le(o.seen(), r->Ok_0.span.start) && pos_le(r->Ok_0.span.end, self.seen()),
            !(r is Err && r->Err_0 is Fatal) ==> pos_le(o.seen(), self.seen()),
    {
        broadcast use lemma_pos_le;
        lemma_tokens_in_order(o.text(), o.idx());
    }
}
} // verus!
fn main() {}
