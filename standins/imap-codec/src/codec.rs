macro_rules! codecs {
    ($($name:ident),*) => {$(
        #[derive(Clone, Debug, Default, Eq, PartialEq)]
        #[non_exhaustive]
        pub struct $name {}
        impl $name {
            pub fn new() -> Self {
                Self::default()
            }
        }
    )*};
}
codecs!(GreetingCodec, CommandCodec, AuthenticateDataCodec, ResponseCodec, IdleDoneCodec);
