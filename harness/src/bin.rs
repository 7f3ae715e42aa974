fn main(){ fixrs_sut::verif::main() }
