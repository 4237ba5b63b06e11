fn main() { wsmod::w01::main() }
