// Stand-in for the flight software C2A: records the registered commands.
#pragma once
#include <stdint.h>
#include <vector>
typedef int CMD_CODE;
#define CSP_MAX_LEN 432
enum TLCD_ID { TLCD_ID_FROM_GS = 0 };
struct FakeCommand {
  bool timeline;
  uint32_t ti;
  int id;
  std::vector<uint8_t> param;
};
inline std::vector<FakeCommand> fake_commands;
inline void CCP_register_rtc(CMD_CODE id, const uint8_t* p, uint16_t n) { fake_commands.push_back({false, 0, id, std::vector<uint8_t>(p, p + n)}); }
inline void CCP_register_tlc(uint32_t ti, TLCD_ID, CMD_CODE id, const uint8_t* p, uint16_t n) { fake_commands.push_back({true, ti, id, std::vector<uint8_t>(p, p + n)}); }
