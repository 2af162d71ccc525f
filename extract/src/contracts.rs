//! Contract files (*.vc). Sections start with a line whose first character is '@'.
//!   @fn KEY -> RET [sender]      contract clauses (requires/ensures/decreases) follow
//!   @loop N                      loop clauses (invariant/decreases) of the N-th loop of the current fn
//!   @pre / @post                 ghost code at the start / end of the body
//!   @attr                        attributes of the current fn
//!   @alloc EXPR                  ghost bound of allocations in the current fn (default ALLOC_LIMIT)
//!   @clone KEY                   ensures clause of the derived Clone impl of a struct
//!   @drop KEY REASON...          item left out of the verified text
//!   @trust KEY FINGERPRINT       body not verified (assumed), pinned to the token fingerprint
//!   @static KEY                  (static turned into a function; clauses are generated)
use std::collections::BTreeMap;

#[derive(Default, Clone, Debug)]
pub struct FnContract {
    pub key: String,
    pub ret: String,
    pub sender: bool,
    pub props: Vec<String>,
    pub clauses: String,
    pub loops: BTreeMap<usize, String>,
    pub pre: String,
    pub post: String,
    pub attr: String,
    pub alloc: String,
    /// proof text before an unfinished (`todo!`) rest of a function; None: reaching it is a failure
    pub todo: Option<String>,
}

#[derive(Default, Clone)]
pub struct Contracts {
    pub fns: BTreeMap<String, FnContract>,
    pub clones: BTreeMap<String, String>,
    pub drops: BTreeMap<String, String>,
}

pub fn load(dir: &str) -> Result<Contracts, String> {
    let mut c = Contracts::default();
    let mut files: Vec<_> = std::fs::read_dir(dir).map_err(|e| e.to_string())?
        .filter_map(|e| e.ok()).map(|e| e.path())
        .filter(|p| p.extension().map(|x| x == "vc").unwrap_or(false)).collect();
    files.sort();
    for f in files {
        let text = std::fs::read_to_string(&f).map_err(|e| e.to_string())?;
        parse(&text, &mut c).map_err(|e| format!("{}: {}", f.display(), e))?;
    }
    Ok(c)
}

fn parse(text: &str, c: &mut Contracts) -> Result<(), String> {
    enum Sec { None, Clauses, Loop(usize), Pre, Post, Attr, Todo, Clone(String) }
    let mut cur: Option<FnContract> = None;
    let mut sec = Sec::None;
    macro_rules! flush { () => { if let Some(f) = cur.take() {
        if c.fns.contains_key(&f.key) { return Err(format!("duplicate contract {}", f.key)); }
        c.fns.insert(f.key.clone(), f); } } }
    for (n, line) in text.lines().enumerate() {
        let t = line.trim_start();
        if t.starts_with("//") { continue; }
        if line.starts_with('@') {
            let words: Vec<&str> = line[1..].split_whitespace().collect();
            match words.first().copied().unwrap_or("") {
                "fn" => {
                    flush!();
                    // the key may contain spaces ("<u16 as FromDatagram>::x"): it ends at "->"
                    let rest = line[3..].trim();
                    let (key, tail) = match rest.split_once("->") { Some((a, b)) => (a.trim(), b.trim()), None => (rest, "") };
                    let tw: Vec<&str> = tail.split_whitespace().collect();
                    let mut f = FnContract { key: key.replace(' ', ""), ret: tw.first().copied().unwrap_or("r").to_string(), ..Default::default() };
                    for w in tw.iter().skip(1) {
                        if *w == "sender" { f.sender = true; } else { f.props.push(w.to_string()); }
                    }
                    cur = Some(f);
                    sec = Sec::Clauses;
                }
                "loop" => sec = Sec::Loop(words[1].parse().map_err(|_| format!("line {}: loop", n + 1))?),
                "pre" => sec = Sec::Pre,
                "post" => sec = Sec::Post,
                "attr" => sec = Sec::Attr,
                "todo" => { sec = Sec::Todo; if let Some(f) = cur.as_mut() { f.todo = Some(String::new()); } }
                "alloc" => { if let Some(f) = cur.as_mut() { f.alloc = words[1..].join(" "); } }
                "clone" => { flush!(); sec = Sec::Clone(words[1].to_string()); c.clones.insert(words[1].to_string(), String::new()); }
                "drop" => { flush!(); sec = Sec::None; c.drops.insert(words[1].to_string(), words[2..].join(" ")); }
                x => return Err(format!("line {}: unknown section {}", n + 1, x)),
            }
            continue;
        }
        let l = format!("{}\n", line);
        match (&sec, cur.as_mut()) {
            (Sec::Clauses, Some(f)) => f.clauses.push_str(&l),
            (Sec::Loop(k), Some(f)) => f.loops.entry(*k).or_default().push_str(&l),
            (Sec::Pre, Some(f)) => f.pre.push_str(&l),
            (Sec::Post, Some(f)) => f.post.push_str(&l),
            (Sec::Todo, Some(f)) => f.todo.as_mut().unwrap().push_str(&l),
            (Sec::Attr, Some(f)) => f.attr.push_str(&l),
            (Sec::Clone(k), _) => c.clones.get_mut(k).unwrap().push_str(&l),
            _ => if !t.is_empty() { return Err(format!("line {}: text outside a section", n + 1)); },
        }
    }
    flush!();
    Ok(())
}
