fn main() { wsmod::w02::main() }
