// Instantiates the public templates of open-vcdiff so that they are part of the analysed module.  Never executed.
#include <config.h>
#include <new>
#include <string>
#include "google/vcdecoder.h"
#include "google/vcencoder.h"
#include "google/output_string.h"
namespace verif_shim {
void NewEncoder(void* p, const char* dictionary, size_t size, int flags, bool targets) {
  open_vcdiff::VCDiffEncoder* e = new (p) open_vcdiff::VCDiffEncoder(dictionary, size);
  e->SetFormatFlags(flags);
  e->SetTargetMatching(targets);
}
bool Encode(open_vcdiff::VCDiffEncoder* e, const char* data, size_t size, std::string* out) { return e->Encode(data, size, out); }
void NewDecoder(void* p) { new (p) open_vcdiff::VCDiffDecoder; }
bool Decode(open_vcdiff::VCDiffDecoder* d, const char* dictionary, size_t size, const std::string& delta, std::string* out) { return d->Decode(dictionary, size, delta, out); }
size_t EncoderSize() { return sizeof(open_vcdiff::VCDiffEncoder); }
size_t DecoderSize() { return sizeof(open_vcdiff::VCDiffDecoder); }
}
