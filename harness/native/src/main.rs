mod table;
fn main() {
    symrt::native::main_with(table::find);
}
