// Instantiates header-only templates of the library so that their bodies are
// analysed even though no library source uses them.
#include <libloong/machine.hpp>
