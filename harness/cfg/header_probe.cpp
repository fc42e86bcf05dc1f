// Prints the constants and bit ranges of radsim_defines.hpp.
#include "radsim_defines.hpp"
#include <cstdio>
struct T { struct R { long hi, lo; }; R range(long h, long l) { return {h, l}; } };
#define C(x) printf("c " #x " %ld\n", (long)(x));
#define F(x) { T t; auto r = x(t); printf("f " #x " %ld %ld\n", r.hi, r.lo); }
int main() {
  printf("root %s\n", RADSIM_ROOT_DIR);
#ifdef SINGLE_RAD
  printf("single\n");
#endif
  C(NOC_LINKS_PAYLOAD_WIDTH) C(NOC_LINKS_VCID_WIDTH) C(NOC_LINKS_PACKETID_WIDTH) C(NOC_LINKS_TYPEID_WIDTH) C(NOC_LINKS_DEST_WIDTH) C(NOC_LINKS_DEST_INTERFACE_WIDTH) C(NOC_LINKS_WIDTH)
  C(AXIS_MAX_DATAW) C(AXI4_MAX_DATAW) C(AXIS_USERW) C(AXI4_USERW) C(AXIS_STRBW) C(AXIS_KEEPW) C(AXIS_IDW) C(AXIS_DESTW) C(AXIS_DEST_FIELDW) C(AXI4_IDW) C(AXI4_ADDRW) C(AXI4_LENW)
  C(AXI4_SIZEW) C(AXI4_BURSTW) C(AXI4_RESPW) C(AXI4_NODE_ADDRW) C(AXI4_CTRLW) C(AXIS_PAYLOADW) C(AXIS_TRANSACTION_WIDTH) C(AXI4_PAYLOADW)
  C(AXI_TYPE_AR) C(AXI_TYPE_AW) C(AXI_TYPE_W) C(AXI_TYPE_R) C(AXI_TYPE_B) C(AXI_NUM_RSP_TYPES) C(AXI_NUM_REQ_TYPES)
  F(AXIS_TLAST) F(AXIS_TUSER) F(AXIS_TDATA) F(AXIS_TSTRB) F(AXIS_TKEEP) F(AXIS_TID) F(AXIS_TDEST) F(DEST_LOCAL_NODE) F(DEST_REMOTE_NODE) F(DEST_RAD)
  F(AXI4_LAST) F(AXI4_USER) F(AXI4_RESP) F(AXI4_DATA) F(AXI4_CTRL) F(AXI4_ADDR)
  { T t; auto r = AXIS_TUSER_RANGE(t, 3, 7); printf("f AXIS_TUSER_RANGE %ld %ld\n", r.hi, r.lo); }
}
