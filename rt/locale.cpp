// The classic "C" locale and the iostream pieces libstdc++ keeps in its shared object, so that header-only stream code
// (formatting, parsing) runs symbolically. Compiled with -fno-access-control.
#define private public
#define protected public
#include <locale>
#include <ios>
#undef private
#undef protected
#include <istream>
#include <ostream>
#include <sstream>
#include <fstream>
#include <cstring>
#include <cstdlib>
#include "sym.h"
namespace std {
_Atomic_word locale::id::_S_refcount = 0;
size_t locale::id::_M_id() const throw() { if (!_M_index) _M_index = ++_S_refcount; return _M_index - 1; }
locale::id ctype<char>::id, codecvt<char, char, mbstate_t>::id;
locale::facet::~facet() {}
const char *locale::facet::_S_get_c_name() throw() { return "C"; }
__c_locale locale::facet::_S_get_c_locale() { return nullptr; }
static ctype_base::mask tableOf(int c) {
  ctype_base::mask m = 0;
  if (c >= 'A' && c <= 'Z') m |= ctype_base::upper | ctype_base::alpha; if (c >= 'a' && c <= 'z') m |= ctype_base::lower | ctype_base::alpha;
  if (c >= '0' && c <= '9') m |= ctype_base::digit | ctype_base::xdigit; if ((c >= 'a' && c <= 'f') || (c >= 'A' && c <= 'F')) m |= ctype_base::xdigit;
  if (c == ' ' || (c >= 9 && c <= 13)) m |= ctype_base::space; if (c < 32 || c == 127) m |= ctype_base::cntrl; if (c == ' ' || c == 9) m |= ctype_base::blank;
  if (c >= 32 && c < 127) m |= ctype_base::print; if (c > 32 && c < 127 && !(m & (ctype_base::alpha | ctype_base::digit))) m |= ctype_base::punct;
  return c > 127 ? 0 : m;
}
static ctype_base::mask ctab[256]; static bool ctabInit;
const ctype<char>::mask *ctype<char>::classic_table() throw() { if (!ctabInit) { ctabInit = true; for (int i = 0; i < 256; i++) ctab[i] = tableOf(i); } return ctab; }
ctype<char>::ctype(const mask *, bool, size_t refs) : facet(refs), _M_c_locale_ctype(nullptr), _M_del(false), _M_table(classic_table()) { _M_widen_ok = 1; _M_narrow_ok = 1; for (int i = 0; i < 256; i++) { _M_widen[i] = (char)i; _M_narrow[i] = (char)i; } }
ctype<char>::~ctype() {}
void ctype<char>::_M_widen_init() const { _M_widen_ok = 1; }
void ctype<char>::_M_narrow_init() const { _M_narrow_ok = 1; }
char ctype<char>::do_toupper(char c) const { return c >= 'a' && c <= 'z' ? c - 32 : c; }
const char *ctype<char>::do_toupper(char *l, const char *h) const { for (; l < h; l++) *l = do_toupper(*l); return h; }
char ctype<char>::do_tolower(char c) const { return c >= 'A' && c <= 'Z' ? c + 32 : c; }
const char *ctype<char>::do_tolower(char *l, const char *h) const { for (; l < h; l++) *l = do_tolower(*l); return h; }
template <> void numpunct<char>::_M_initialize_numpunct(__c_locale) {
  if (!_M_data) _M_data = new __numpunct_cache<char>;
  _M_data->_M_grouping = ""; _M_data->_M_grouping_size = 0; _M_data->_M_use_grouping = false; _M_data->_M_decimal_point = '.'; _M_data->_M_thousands_sep = ',';
  for (size_t i = 0; i < __num_base::_S_oend; i++) _M_data->_M_atoms_out[i] = __num_base::_S_atoms_out[i];
  for (size_t i = 0; i < __num_base::_S_iend; i++) _M_data->_M_atoms_in[i] = __num_base::_S_atoms_in[i];
  _M_data->_M_truename = "true"; _M_data->_M_truename_size = 4; _M_data->_M_falsename = "false"; _M_data->_M_falsename_size = 5;
}
template <> numpunct<char>::~numpunct() {}
const char *__num_base::_S_atoms_in = "-+xX0123456789abcdefABCDEF";
const char *__num_base::_S_atoms_out = "-+xX0123456789abcdef0123456789ABCDEF";
template class numpunct<char>; template class num_get<char>; template class num_put<char>; template struct __numpunct_cache<char>;
void locale::_Impl::_M_install_cache(const facet *c, size_t i) { if (!_M_caches[i]) _M_caches[i] = c; }
locale::_Impl *locale::_S_classic, *locale::_S_global;
static locale::_Impl *classicImpl() {
  if (locale::_S_classic) return locale::_S_classic;
  locale::_Impl *im = (locale::_Impl *)calloc(1, sizeof(locale::_Impl)); const size_t N = 40;
  im->_M_refcount = 1000; im->_M_facets = (const locale::facet **)calloc(N, sizeof(void *)); im->_M_facets_size = N; im->_M_caches = (const locale::facet **)calloc(N, sizeof(void *)); im->_M_names = (char **)calloc(N, sizeof(char *));
  locale::_S_classic = locale::_S_global = im;
  im->_M_facets[ctype<char>::id._M_id()] = new ctype<char>((const ctype_base::mask *)0, false, 1);
  { numpunct<char> *np = new numpunct<char>(1); im->_M_facets[numpunct<char>::id._M_id()] = np; im->_M_caches[numpunct<char>::id._M_id()] = np->_M_data; }
  im->_M_facets[num_get<char>::id._M_id()] = new num_get<char>(1);
  im->_M_facets[num_put<char>::id._M_id()] = new num_put<char>(1);
  return im;
}
locale::locale() throw() : _M_impl(classicImpl()) {}
locale::locale(const locale &o) throw() : _M_impl(o._M_impl) {}
locale::~locale() throw() {}
const locale &locale::operator=(const locale &o) throw() { _M_impl = o._M_impl; return *this; }
const locale &locale::classic() { static locale c; return c; }
bool locale::operator==(const locale &o) const throw() { return _M_impl == o._M_impl; }
ios_base::ios_base() throw() : _M_precision(), _M_width(), _M_flags(), _M_exception(), _M_streambuf_state(), _M_callbacks(0), _M_word_zero(), _M_word_size(_S_local_word_size), _M_word(_M_local_word), _M_ios_locale() {}
ios_base::~ios_base() {}
void ios_base::_M_init() throw() { _M_precision = 6; _M_width = 0; _M_flags = skipws | dec; _M_ios_locale = locale(); }
void ios_base::_M_call_callbacks(event) throw() {}
locale ios_base::imbue(const locale &l) throw() { locale o = _M_ios_locale; _M_ios_locale = l; return o; }
ios_base::_Words &ios_base::_M_grow_words(int, bool) { return _M_word_zero; }
void __throw_ios_failure(const char *s) { throw ios_base::failure(s); }
void __throw_ios_failure(const char *s, int) { throw ios_base::failure(s); }
ios_base::failure::failure(const char *s, const error_code &e) : system_error(e, s) {}
ios_base::failure::failure(const string &s, const error_code &e) : system_error(e, s) {}
ios_base::failure::~failure() {}
const char *ios_base::failure::what() const throw() { return "ios failure"; }
struct io_cat : error_category { const char *name() const noexcept override { return "iostream"; } string message(int) const override { return "iostream error"; } };
const error_category &iostream_category() noexcept { static io_cat c; return c; }
template class basic_ios<char>; template class basic_streambuf<char>; template class basic_ostream<char>; template class basic_istream<char>; template class basic_iostream<char>;
namespace __cxx11 { template class basic_stringbuf<char>; template class basic_stringstream<char>; template class basic_istringstream<char>; template class basic_ostringstream<char>; }
template ostream &__ostream_insert(ostream &, const char *, streamsize);
template ostream &operator<<(ostream &, const char *); template ostream &operator<<(ostream &, char); template ostream &endl(ostream &); template ostream &ends(ostream &); template ostream &flush(ostream &);
template istream &ws(istream &);
template istream &operator>>(istream &, char &);
template ostream &ostream::_M_insert(long); template ostream &ostream::_M_insert(unsigned long); template ostream &ostream::_M_insert(long long); template ostream &ostream::_M_insert(unsigned long long); template ostream &ostream::_M_insert(bool);
template istream &istream::_M_extract(unsigned short &); template istream &istream::_M_extract(unsigned int &); template istream &istream::_M_extract(long &); template istream &istream::_M_extract(unsigned long &); template istream &istream::_M_extract(long long &); template istream &istream::_M_extract(unsigned long long &); template istream &istream::_M_extract(bool &);
template ostream &operator<<(ostream &, const string &); template istream &operator>>(istream &, string &); template istream &getline(istream &, string &, char); template istream &getline(istream &, string &);
}
