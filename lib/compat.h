// Compatibility preamble, force-included before everything else when the monitors are compiled.
// It supplies the one trait that the library needs and the installed pyre 1.14 does not have, and the feature macros
// that the project's own build system would define. It changes nothing in the library.
#pragma once
#ifndef HAVE_TENSOR
#define HAVE_TENSOR
#endif
#ifndef HAVE_COMPACT_PACKINGS
#define HAVE_COMPACT_PACKINGS
#endif
#include <pyre/journal.h>
#include <pyre/tensor.h>
namespace pyre::tensor::traits {
    template <class M>
    struct transpose {
        using type = decltype(pyre::tensor::transpose(std::declval<const M &>()));
    };
}
