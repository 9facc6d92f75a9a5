fn main() { vhlib::main() }
