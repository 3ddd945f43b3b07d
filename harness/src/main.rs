fn main() { vh::run(&[vh::suites::ALL]) }
