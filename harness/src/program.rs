//! Text format of write programs, one directive per line:
//!   P id [ref-id|-] [tag]      begin a program
//!   S type                     schema, prefix notation: long, decimal:15:2, char:10,
//!                              struct:n ( hexname type ... ), list ( type ), map ( k v ), union:n ( ... )
//!   C codec block level        codec NONE|SNAPPY|ZSTD; -1 / 0 for the defaults
//!   G stride stripe            -1 for the defaults
//!   O call...                  the configuration as a sequence of calls, instead of C and G:
//!                              stride n, stripe n, comp codec k followed by k times block n or level n
//!   K spec [spec...]           sink behaviour (see sink.rs)
//!   Y kind...                  what else happens in the process: other writers at work in between
//!                              (snappy, zstd, none, twin, thread, drop) or a process of its own (fresh)
//!   W col cell...              write cells through the ordinary entry points; cell*k repeats
//!   V col cell...              the same through the alternative entry points
//!   N col count width         write that many values of that many bytes (runs tagged large only)
//!   B n                        write_batch(n)
//!   F                          finish
//!   R rows seed                 write that many rows of arbitrary cells (runs tagged large only)
//!   E                          end of the program

pub struct Ty {
    pub kind: String,
    pub p: u32,
    pub s: u32,
    pub n: u32,
    pub names: Vec<Vec<u8>>,
    pub kids: Vec<Ty>,
}

pub enum Op {
    Put { col: usize, toks: Vec<String>, alt: bool },
    Many { col: usize, n: u64, width: usize },
    Noise { rows: u64, seed: u64 },
    Batch(u64),
    Finish,
}

pub enum Conf {
    Stride(u32),
    Stripe(usize),
    Comp(String, Vec<Part>),
}

pub enum Part {
    Block(usize),
    Level(i32),
}

pub struct Program {
    pub id: String,
    pub reference: Option<String>,
    pub tag: String,
    pub ty: Ty,
    pub comp: String,
    pub block: i64,
    pub level: i32,
    pub stride: i64,
    pub stripe: i64,
    pub conf: Vec<Conf>,
    pub own: bool,
    pub sink: Vec<String>,
    pub shadow: Vec<String>,
    pub ops: Vec<Op>,
}

fn parse_type(t: &mut std::iter::Peekable<std::str::SplitWhitespace>) -> Ty {
    let head: Vec<&str> = t.next().expect("type").split(':').collect();
    let arg = |i: usize| -> u32 { head.get(i).map_or(0, |x| x.parse().unwrap()) };
    let mut ty = Ty { kind: head[0].to_uppercase(), p: 0, s: 0, n: 0, names: vec![], kids: vec![] };
    match head[0] {
        "decimal" => { ty.p = arg(1); ty.s = arg(2); }
        "char" | "varchar" => ty.n = arg(1),
        "struct" | "list" | "map" | "union" => {
            assert_eq!(t.next(), Some("("));
            while t.peek() != Some(&")") {
                if head[0] == "struct" {
                    ty.names.push(super::hex(&t.next().unwrap()[1..]));
                }
                ty.kids.push(parse_type(t));
            }
            t.next();
        }
        _ => {}
    }
    ty
}

fn cells(rest: std::str::SplitWhitespace) -> Vec<String> {
    let mut out = Vec::new();
    for tok in rest {
        match tok.split_once('*') {
            Some((v, k)) => {
                for _ in 0..k.parse::<usize>().unwrap() { out.push(v.to_string()); }
            }
            None => out.push(tok.to_string()),
        }
    }
    out
}

pub fn parse(text: &str) -> Vec<Program> {
    let mut out = Vec::new();
    let mut cur: Option<Program> = None;
    for line in text.lines() {
        let mut it = line.split_whitespace();
        let d = match it.next() { Some(d) => d, None => continue };
        if d == "P" {
            let id = it.next().unwrap().to_string();
            let reference = it.next().filter(|x| *x != "-").map(|x| x.to_string());
            cur = Some(Program {
                id, reference,
                tag: it.next().unwrap_or("").to_string(),
                ty: Ty { kind: "LONG".into(), p: 0, s: 0, n: 0, names: vec![], kids: vec![] },
                comp: "NONE".into(), block: -1, level: 0, stride: -1, stripe: -1, conf: vec![], own: false,
                sink: vec![], shadow: vec![], ops: vec![],
            });
            continue;
        }
        let p = cur.as_mut().expect("P first");
        match d {
            "S" => p.ty = parse_type(&mut it.peekable()),
            "C" => {
                p.comp = it.next().unwrap().into();
                p.block = it.next().unwrap().parse().unwrap();
                p.level = it.next().unwrap().parse().unwrap();
            }
            "G" => {
                p.stride = it.next().unwrap().parse().unwrap();
                p.stripe = it.next().unwrap().parse().unwrap();
            }
            "O" => {
                p.own = true;
                while let Some(w) = it.next() {
                    let arg = it.next().unwrap();
                    p.conf.push(match w {
                        "stride" => Conf::Stride(arg.parse().unwrap()),
                        "stripe" => Conf::Stripe(arg.parse().unwrap()),
                        "comp" => {
                            let k: usize = it.next().unwrap().parse().unwrap();
                            Conf::Comp(arg.to_string(), (0..k).map(|_| match it.next().unwrap() {
                                "block" => Part::Block(it.next().unwrap().parse().unwrap()),
                                "level" => Part::Level(it.next().unwrap().parse().unwrap()),
                                x => panic!("unknown part {}", x),
                            }).collect())
                        }
                        x => panic!("unknown setting {}", x),
                    });
                }
            }
            "K" => p.sink = it.map(|x| x.to_string()).collect(),
            "Y" => p.shadow = it.map(|x| x.to_string()).collect(),
            "W" | "V" => {
                let col = it.next().unwrap().parse().unwrap();
                p.ops.push(Op::Put { col, toks: cells(it), alt: d == "V" });
            }
            "N" => {
                let mut arg = || it.next().unwrap().parse::<u64>().unwrap();
                p.ops.push(Op::Many { col: arg() as usize, n: arg(), width: arg() as usize });
            }
            "R" => {
                let mut arg = || it.next().unwrap().parse::<u64>().unwrap();
                p.ops.push(Op::Noise { rows: arg(), seed: arg() });
            }
            "B" => p.ops.push(Op::Batch(it.next().unwrap().parse().unwrap())),
            "F" => p.ops.push(Op::Finish),
            "E" => out.push(cur.take().unwrap()),
            x => panic!("unknown directive {}", x),
        }
    }
    out
}
