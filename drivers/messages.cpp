#include "vp.h"
#include <sharemind/NetworkMessage.h>
using namespace sharemind;
using IN = IncomingNetworkMessage;
using OUT = OutgoingNetworkMessage;
struct Blob { unsigned char b[24]; };
struct Over { int x; };

VP_ENTRY std::size_t vp_e_NM_size(IN const & m) { return m.getSize(); }
VP_ENTRY std::size_t vp_e_NM_offset(IN const & m) { return m.getOffset(); }
VP_ENTRY void const * vp_e_NM_data(IN const & m) { return m.getData(); }
VP_ENTRY std::size_t vp_e_NM_remaining(IN const & m) { return m.getRemainingSize(); }
VP_ENTRY void const * vp_e_NM_ptr(IN const & m) { return m.getPtr(); }
VP_ENTRY bool vp_e_NM_seek(IN & m, std::size_t p) { return m.seek(p); }

VP_ENTRY bool vp_e_IN_bytes(IN & m, void * b, std::size_t n) { return m.readBytes(b, n); }
VP_ENTRY bool vp_e_IN_u8(IN & m, std::uint8_t & v) { return m.read(v); }
VP_ENTRY bool vp_e_IN_u32(IN & m, std::uint32_t & v) { return m.read(v); }
VP_ENTRY bool vp_e_IN_u64(IN & m, std::uint64_t & v) { return m.read(v); }
VP_ENTRY bool vp_e_IN_blob(IN & m, Blob & v) { return m.read(v); }
VP_ENTRY bool vp_e_IN_bool(IN & m, bool & v) { return m.read(v); }
VP_ENTRY bool vp_e_IN_string(IN & m, std::string & v) { return m.read(v); }
VP_ENTRY bool vp_e_IN_size(IN & m, std::size_t & v) { return m.readSize(v); }
VP_ENTRY bool vp_e_IN_size32(IN & m, std::uint32_t & v) { return m.readSize(v); }
VP_ENTRY bool vp_e_IN_size32x(IN & m, std::uint32_t & v) { return m.readSize(v, Over{1}); }
VP_ENTRY bool vp_e_IN_ssize32(IN & m, std::size_t & v) { return m.readSize<std::uint32_t>(v); }
VP_ENTRY bool vp_e_IN_ssize16(IN & m, std::uint8_t & v) { return m.readSize<std::uint16_t>(v, Over{1}); }
VP_ENTRY bool vp_e_IN_array8(IN & m, std::uint8_t * v, std::size_t n) { return m.readArray(v, n); }
VP_ENTRY bool vp_e_IN_array32(IN & m, std::uint32_t * v, std::size_t n) { return m.readArray(v, n); }
VP_ENTRY bool vp_e_IN_array24(IN & m, Blob * v, std::size_t n) { return m.readArray(v, n); }
VP_ENTRY bool vp_e_IN_array8_16(IN & m, std::uint64_t * v, std::uint16_t n) { return m.readArray(v, n); }

VP_ENTRY void vp_e_OUT_rewind(OUT & m) { m.rewind(); }
VP_ENTRY void vp_e_OUT_bytes(OUT & m, void const * b, std::size_t n) { m.writeBytes(b, n); }
VP_ENTRY void vp_e_OUT_bool(OUT & m, bool v) { m.write(v); }
VP_ENTRY void vp_e_OUT_u8(OUT & m, std::uint8_t const & v) { m.write(v); }
VP_ENTRY void vp_e_OUT_u64(OUT & m, std::uint64_t const & v) { m.write(v); }
VP_ENTRY void vp_e_OUT_blob(OUT & m, Blob & v) { m.write(v); }
VP_ENTRY void vp_e_OUT_cstr(OUT & m, char const * v) { m.write(v); }
VP_ENTRY void vp_e_OUT_mcstr(OUT & m, char * v) { m.write(v); }
VP_ENTRY void vp_e_OUT_cstrn(OUT & m, char const * v, std::size_t n) { m.write(v, n); }
VP_ENTRY void vp_e_OUT_string(OUT & m, std::string const & v) { m.write(v); }
VP_ENTRY void vp_e_OUT_mstring(OUT & m, std::string & v) { m.write(v); }
VP_ENTRY void vp_e_OUT_rstring(OUT & m, std::string & v) { m.write(std::move(v)); }
VP_ENTRY void vp_e_OUT_msg(OUT & m, IN const & v) { m.write(v); }
VP_ENTRY void vp_e_OUT_mmsg(OUT & m, IN & v) { m.write(v); }
VP_ENTRY void vp_e_OUT_size(OUT & m, std::size_t v) { m.writeSize(v); }
VP_ENTRY void vp_e_OUT_ssize32(OUT & m, std::uint32_t v) { m.writeSize<std::uint32_t>(v); }
VP_ENTRY void vp_e_OUT_array8(OUT & m, std::uint8_t const * v, std::size_t n) { m.writeArray(v, n); }
VP_ENTRY void vp_e_OUT_array32(OUT & m, std::uint32_t const * v, std::size_t n) { m.writeArray(v, n); }
VP_ENTRY void vp_e_OUT_array24(OUT & m, Blob const * v, std::size_t n) { m.writeArray(v, n); }
VP_ENTRY void vp_e_OUT_array8_16(OUT & m, std::uint64_t const * v, std::uint16_t n) { m.writeArray(v, n); }
VP_ENTRY void vp_e_OUT_sarray8(OUT & m, std::uint8_t const * v, std::size_t n) { m.writeSizeAndArray(v, n); }
VP_ENTRY void vp_e_OUT_sarray24(OUT & m, Blob const * v, std::size_t n) { m.writeSizeAndArray(v, n); }
VP_ENTRY void vp_e_OUT_s32array8(OUT & m, std::uint64_t const * v, std::uint32_t n) { m.writeSizeAndArray<std::uint32_t>(v, n); }
VP_ENTRY void vp_e_OUT_ctor(void * p) { new (p) OUT(); }
VP_ENTRY void vp_e_OUT_dtor(OUT & m) { m.OUT::~OUT(); }
VP_ENTRY char const * vp_e_STR_data(std::string const & s) { return s.data(); }
VP_ENTRY std::size_t vp_e_STR_size(std::string const & s) { return s.size(); }
