autocxx::include_cpp! {
    #include "input.h"
    safety!(unsafe_ffi)
    generate!("unrelated")
    subclass!("Base", Sub)
}
