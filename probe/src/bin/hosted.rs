use std::io::{BufRead, Write};
fn main() {
    let i = std::io::stdin();
    let mut o = std::io::BufWriter::new(std::io::stdout());
    for l in i.lock().lines() {
        let l = l.unwrap();
        let r = probe::line(&l);
        o.write_all(r.as_bytes()).unwrap();
        o.write_all(b"\n").unwrap();
        if cfg!(miri) {
            o.flush().unwrap()
        }
    }
    o.write_all(b"END\n").unwrap();
}
