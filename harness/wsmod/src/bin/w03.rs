fn main() { wsmod::w03::main() }
