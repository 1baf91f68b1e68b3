// Repository functions that are not lowered (third-party decompression, writing files):
// the symbolic executor treats every archive as unreadable and exports nothing.
#include "src/utils/decoder.hpp"
#include "src/exporter/implication_graph_exporter.hpp"
#ifndef NSX_OWN_DECODER
bool decompress_xz(const char*, std::ostringstream&) { return false; }
bool decompress_bz2(const char*, std::ostringstream&) { return false; }
#endif
namespace napsat::exporter {
void implication_graph_exporter::export_implication_graph(const std::string&, size_t, const std::vector<Tlit>&, std::function<const Tlit*(Tlit)>, std::function<size_t(Tlit)>, std::function<std::string(Tlit)>) {}
}
