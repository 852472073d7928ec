pub assume_specification<T: std::marker::MetaSized + ?Sized, A: std::alloc::Allocator>[ <Box<T, A> as std::convert::AsRef<T>>::as_ref ](b: &Box<T, A>) -> (r: &T)
    ensures r == &**b;
