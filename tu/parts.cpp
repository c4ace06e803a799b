// Instantiations of the encode/decode templates for analysis only (never compiled into a program or run).
#include <iterator>
#include <string>
#include <string_view>
#include <vector>
#include "uri/parts.hpp"
namespace vtu {
uri::parts encode_vec (std::vector<char>& s, uri::parts const& p) { return uri::encode (s, p); }
uri::parts encode_str (std::string& s, uri::parts const& p) { return uri::encode (s, p); }
std::variant<std::error_code, uri::parts> decode_vec (std::vector<char>& s, uri::parts const& p) { return uri::decode (s, p); }
std::variant<std::error_code, uri::parts> decode_str (std::string& s, uri::parts const& p) { return uri::decode (s, p); }
// -- host labels
struct enc_res {
  std::string out;
  bool any;
};
enc_res host_encode (std::u32string_view s) {
  std::string o;
  auto r = uri::details::puny_encoded (s, std::back_inserter (o));
  return {o, r.any_non_ascii};
}
std::size_t host_encoded_size (std::u32string_view s) { return uri::details::puny_encoded_size (s); }
bool host_decode (std::string_view s, std::string& o, bool& any, std::error_code& e) {
  auto r = uri::details::puny_decoded (s, std::back_inserter (o));
  if (auto const* x = std::get_if<0> (&r)) {
    e = *x;
    return false;
  }
  any = std::get<1> (r).any_encoded;
  return true;
}
std::variant<std::error_code, std::size_t> host_decoded_size (std::string_view s) { return uri::details::puny_decoded_size (s); }
}  // namespace vtu
