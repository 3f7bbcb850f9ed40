#include "inverted_index.hpp"
void probe(InvertedIndex<uint32_t>::Transient& t) { (void)t.term_doc_iterator(5u); }
