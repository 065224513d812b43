//! replay HARNESS TAPE: runs a harness natively, on the real library, with the concrete values of
//! a solver counterexample.  Tape: one line per value, hexadecimal bytes in memory order.
//! Exit: 0 nothing wrong happened, 101 panic (= the property is violated), 90 bad tape.
#[cfg(kani)]
fn main() {}

#[cfg(not(kani))]
fn main() {
    let a: Vec<String> = std::env::args().collect();
    let tape: Vec<Vec<u8>> = std::fs::read_to_string(&a[2])
        .unwrap()
        .lines()
        .filter(|l| !l.starts_with('#'))
        .map(|l| {
            l.split_whitespace().map(|b| u8::from_str_radix(b, 16).unwrap()).collect::<Vec<u8>>()
        })
        .filter(|v: &Vec<u8>| !v.is_empty())
        .collect();
    for (name, f) in harness::registry() {
        if name == a[1] {
            nd::set_tape(tape);
            f();
            if nd::underrun() > 0 {
                eprintln!("REPLAY: {} values missing on the tape were taken as 0", nd::underrun());
            }
            println!("REPLAY: the harness ran to its end, nothing wrong happened");
            return;
        }
    }
    eprintln!("no harness {}", a[1]);
    std::process::exit(91);
}
