pub trait IntegerSquareRoot { fn integer_sqrt(&self) -> Self; }
macro_rules! s { ($($t:ty),*) => { $( impl IntegerSquareRoot for $t { fn integer_sqrt(&self) -> Self {
    let n = *self; if n < 2 { return n; }
    let (mut x, mut y) = (n, n / 2 + 1);
    while y < x { x = y; y = (x + n / x) / 2; }
    x } } )* } }
s!(u64, usize, u32);
