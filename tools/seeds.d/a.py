S('b03-fixed-round-half', 'P03',
  [(I + 'types/fixed.hpp', '        return static_cast<int16_t>(std::round(value * scale));', '        return static_cast<int16_t>(value * scale + (value < 0 ? -0.5 : 0.5) - (value > 255.0 ? 0.5 : 0.0));')],
  'a 16-bit fixed-point field (radix 7) given a value above 255 that is not a multiple of the resolution',
  'values close to the top of the range are truncated instead of rounded',
  cpp='''#include <vrtgen/types/fixed.hpp>
int main() { CHECK((vrtgen::fixed::to_int<16,7>(1.0078125) == 129)); CHECK((vrtgen::fixed::to_int<16,7>(255.993) == 32767)); CHECK((vrtgen::fixed::to_int<16,7>(255.9 + 0.003) == 32756)); return 0; }
''')
S('b04-index-list-tail', 'P05',
  [(P + 'cif1.hpp', 'm_entries.resize(num_entries());', 'if (m_entries.size() < num_entries()) m_entries.resize(num_entries());')],
  'an index list object that already holds more entries than the bytes being unpacked into it',
  'entries of the previous content survive behind the unpacked ones and are sent out again',
  cpp="""#include <vrtgen/packing.hpp>
int main() { vrtgen::packing::IndexList<uint32_t> a, b; a.entries({1, 2}); a.num_entries(2); b.entries({7, 8, 9}); b.num_entries(3);
  std::vector<uint8_t> w(a.size()); a.pack_into(w.data()); b.unpack_from(w.data()); CHECK(b.entries() == a.entries()); CHECK(b.size() == a.size()); return 0; }
""")
S('b05-version-user-defined', 'P01',
  [(P + 'cif1.hpp', '        m_packed.set<9,10>(value);', '        m_packed.set<9,10>(value & 0x1ff);')],
  'a user-defined version subfield of 512 or more', 'the top bit of the ten-bit subfield is lost',
  cpp="""#include <vrtgen/packing.hpp>
int main() { vrtgen::packing::VersionInformation v; v.user_defined(0x155); CHECK(v.user_defined() == 0x155); v.user_defined(0x2AA); CHECK(v.user_defined() == 0x2AA); return 0; }
""")
