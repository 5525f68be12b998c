fn main() {
    let args: Vec<String> = std::env::args().collect();
    match args.get(1).map(String::as_str) {
        Some("honest") => println!("{}", mozak_circuits::vp::honest::dump(args[2].parse().unwrap(), args.get(3).is_none())),
        Some("eval") => {
            let mut s = String::new();
            std::io::Read::read_to_string(&mut std::io::stdin(), &mut s).unwrap();
            println!("{}", mozak_circuits::vp::eval(&s));
        }
        Some("grid") => println!("{}", mozak_circuits::vp::honest::grid(8)),
        Some("rom") => println!("{}", mozak_circuits::vp::rom::dump()),
        _ => println!("{}", mozak_circuits::vp::dump()),
    }
}
