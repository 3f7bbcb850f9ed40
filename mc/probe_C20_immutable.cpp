#include "inverted_index.hpp"
void probe(InvertedIndex<uint32_t>::Transient& t) {
    InvertedIndex<uint32_t>::Persistent p = t.persistent();
    InvertedIndex<uint32_t>::Transient u = p.transient();
    p = p.insert(5u, 1u);
    (void)u;
}
