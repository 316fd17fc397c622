// link: sim
// C07: serial, I2C and digital links between the on-board computer and components.
#include <components/base/component.hpp>
#include <components/base/gpio_connection_with_obc.hpp>
#include <components/base/i2c_target_communication_with_obc.hpp>
#include <components/base/uart_communication_with_obc.hpp>
#include <components/examples/example_serial_communication_with_obc.hpp>
#include <components/ports/gpio_port.hpp>
#include <components/ports/i2c_port.hpp>
#include <components/ports/uart_port.hpp>
#include <components/real/cdh/on_board_computer.hpp>
#include <components/real/cdh/on_board_computer_with_c2a.hpp>
#include <deque>
#include <map>
#include <memory>
#include <set>
#include "mission.hpp"
using namespace pbt;
namespace co = s2e::components;
using Byte = unsigned char;

struct Target : co::I2cTargetCommunicationWithObc {
  using I2cTargetCommunicationWithObc::I2cTargetCommunicationWithObc;
  Target(Target&&) = default;
  using I2cTargetCommunicationWithObc::ReadCommand;
  using I2cTargetCommunicationWithObc::ReadRegister;
  using I2cTargetCommunicationWithObc::WriteRegister;
};
struct PinUnit : co::GpioConnectionWithObc {
  using GpioConnectionWithObc::GpioConnectionWithObc;
  using GpioConnectionWithObc::Read;
  using GpioConnectionWithObc::Write;
};
static std::unique_ptr<co::OnBoardComputer> Computer(Case& c, s2e::environment::ClockGenerator* clock, bool& c2a) {
  c2a = c.Chance(0.3);
  c.Label(c2a ? "flight-software computer" : "plain computer");
  if (c2a) return std::make_unique<co::ObcWithC2a>(clock);
  return std::make_unique<co::OnBoardComputer>(clock);
}
static std::vector<Byte> Data(Case& c, size_t n) {
  std::vector<Byte> v(n);
  for (auto& b : v) b = (Byte)c.EdgeInt(0, 255);
  return v;
}
static std::string Hex(const std::vector<Byte>& v) {
  std::string s;
  char t[4];
  for (auto b : v) snprintf(t, 4, "%02x", b), s += t;
  return s;
}
// moves length bytes out of the queue, as a read of that length must
static std::vector<Byte> Take(std::deque<Byte>& q, size_t length) {
  std::vector<Byte> v(q.begin(), q.begin() + std::min(q.size(), length));
  q.erase(q.begin(), q.begin() + v.size());
  return v;
}
static int Id(Case& c) { return c.Chance(0.05) ? (int)c.Of<int64_t>({-1, 2147483647, -2147483647}) : (int)c.Int(0, 4); }

// ---------------------------------------------------------------- serial ports
struct Line {
  size_t to_component_size, to_computer_size;
  std::deque<Byte> to_component, to_computer;
};
static void Serial(Case& c) {
  mission::Quiet quiet;
  s2e::environment::ClockGenerator clock;
  bool c2a;
  auto obc = Computer(c, &clock, c2a);
  std::map<int, Line> model;
  const int n = (int)c.Int(1, 60);
  int wraps = 0;
  for (int k = 0; k < n; k++) {
    const std::string at = "step " + std::to_string(k);
    const int id = Id(c);
    auto it = model.find(id);
    const int op = it == model.end() && c.Chance(0.8) ? 0 : (int)c.Int(0, 9);
    if (op == 0) {
      const int tx = (int)c.EdgeInt(0, 40), rx = (int)c.EdgeInt(0, 40);
      c.Note("connect ", id, " ", tx, " ", rx);
      const int ret = obc->ConnectComPort(id, tx, rx);
      c.Check(ret == (it == model.end() ? 0 : -1), "connect", at, ": returned ", ret);
      if (it == model.end()) model[id] = {tx ? (size_t)tx : 1024, rx ? (size_t)rx : 1024, {}, {}};
    } else if (op == 1 && c.Bool()) {
      c.Note("close ", id);
      const int ret = obc->CloseComPort(id);
      c.Check(ret == (it == model.end() ? -1 : 0), "close", at, ": returned ", ret);
      model.erase(id);
    } else {
      const bool send = op % 2, up = op % 4 < 2;  // up: from the component to the computer
      std::deque<Byte>* q = it == model.end() ? nullptr : up ? &it->second.to_computer : &it->second.to_component;
      const int offset = c.Bool() ? 0 : (int)c.Int(0, 7);
      if (send) {
        const size_t size = it == model.end() ? 10 : up ? it->second.to_computer_size : it->second.to_component_size;
        const size_t room = q ? size - 1 - q->size() : 5;
        const size_t len = std::min<size_t>(room, (size_t)(c.Chance(0.2) ? room : c.Int(0, 30)));
        std::vector<Byte> data = Data(c, offset + len), keep = data;
        c.Note(up ? "component" : "computer", " sends ", len, " at ", offset, " on ", id, ": ", Hex(data));
        // the buffer ends with the data
        const int ret = up ? obc->SendFromCompo(id, data.data(), offset, (int)len)
                        : c2a && c.Bool() ? co::ObcWithC2a::SendFromObc_C2A(id, data.data(), offset, (int)len) : obc->SendFromObc(id, data.data(), offset, (int)len);
        c.Check(ret == (q ? (int)len : -1), "send", at, ": returned ", ret, " for ", len, " bytes");
        c.Check(data == keep, "send", at, ": the sender's buffer changed");
        if (q) q->insert(q->end(), data.begin() + offset, data.end());
        if (q && room == len && len) c.Label("filled to capacity");
        wraps += q ? (int)len : 0;
      } else {
        const size_t len = (size_t)c.Int(0, 40);
        std::vector<Byte> got(offset + len, 0xA5), want(got);
        std::vector<Byte> taken = q ? Take(*q, len) : std::vector<Byte>();
        std::copy(taken.begin(), taken.end(), want.begin() + offset);
        c.Note(up ? "computer" : "component", " reads ", len, " at ", offset, " on ", id);
        const int ret = !up ? obc->ReceivedByCompo(id, got.data(), offset, (int)len)
                        : c2a && c.Bool() ? co::ObcWithC2a::ReceivedByObc_C2A(id, got.data(), offset, (int)len) : obc->ReceivedByObc(id, got.data(), offset, (int)len);
        c.Check(ret == (q ? (int)taken.size() : -1), "receive", at, ": returned ", ret, ", unread bytes asked for ", taken.size());
        c.Check(got == want, "bytes", at, ": got ", Hex(got), " want ", Hex(want));
        if (taken.size() > 1) c.Label("read several");
      }
    }
  }
  c.NonTrivial(wraps > 40);
  for (auto& m : model) obc->CloseComPort(m.first);  // the flight-software computer shares its ports between instances
}

// ---------------------------------------------------------------- component with commands and telemetry
class Device : public co::Component, public co::UartCommunicationWithObc {
 public:
  Device(s2e::environment::ClockGenerator* g, unsigned port, co::OnBoardComputer* obc) : Component(1, g), UartCommunicationWithObc(port, obc) {}
  Device(s2e::environment::ClockGenerator* g, unsigned port, unsigned tx, unsigned rx, co::OnBoardComputer* obc)
      : Component(1, g), UartCommunicationWithObc(port, tx, rx, obc) {}
  int Receive(unsigned offset, unsigned n) {
    offset_ = offset;
    parsed.clear();
    calls = 0;
    return ReceiveCommand(offset, n);
  }
  int Send(unsigned offset, const std::vector<Byte>& t) {
    offset_ = offset;
    telemetry = t;
    return SendTelemetry(offset);
  }
  std::vector<Byte> parsed, telemetry;
  int calls = 0, parse_return = 0, last_size = 0;

 private:
  unsigned offset_ = 0;
  void MainRoutine(const int) override {}
  int ParseCommand(const int size) override {
    calls++;
    last_size = size;
    if (size > 0) parsed.assign(rx_buffer_.begin() + offset_, rx_buffer_.begin() + offset_ + size);
    return parse_return;
  }
  int GenerateTelemetry() override {
    for (size_t i = 0; i < telemetry.size() && offset_ + i < tx_buffer_.size(); i++) tx_buffer_[offset_ + i] = telemetry[i];
    return (int)telemetry.size();
  }
};
static void Commands(Case& c) {
  mission::Quiet quiet;
  s2e::environment::ClockGenerator clock;
  bool c2a;
  auto obc = Computer(c, &clock, c2a);
  struct Slot {
    std::unique_ptr<Device> device;
    size_t tx, rx;
    std::deque<Byte> to_component, to_computer;
  };
  std::map<int, Slot> model;
  const int n = (int)c.Int(1, 50);
  int parsed = 0, reported = 0;
  for (int k = 0; k < n; k++) {
    const std::string at = "step " + std::to_string(k);
    const int id = (int)c.Int(0, 2);
    auto it = model.find(id);
    if (it == model.end()) {
      Slot s;
      if (c.Chance(0.2)) {
        s.tx = s.rx = 1024;
        s.device = std::make_unique<Device>(&clock, (unsigned)id, obc.get());
      } else {
        const unsigned tx = c.Chance(0.1) ? 2000 : (unsigned)c.Int(1, 60), rx = c.Chance(0.1) ? 2000 : (unsigned)c.Int(1, 60);
        s.tx = std::min(tx, 1024u), s.rx = std::min(rx, 1024u);
        s.device = std::make_unique<Device>(&clock, (unsigned)id, tx, rx, obc.get());
      }
      c.Note("device on ", id, " tx ", s.tx, " rx ", s.rx);
      c.Check(s.device->IsConnected(), "connect", at, ": not connected");
      model[id] = std::move(s);
      continue;
    }
    Slot& s = it->second;
    const int op = (int)c.Int(0, 20);
    if (op == 0) {
      c.Note("device on ", id, " gone");
      model.erase(id);
      Byte b = 1;
      c.Check(obc->SendFromObc(id, &b, 0, 1) == -1, "disconnect", at, ": port still open");
    } else if (op == 1) {
      c.Note("second device on ", id);
      Device second(&clock, (unsigned)id, 10, 10, obc.get());
      c.Check(!second.IsConnected(), "connect", at, ": two devices on one port");
    } else if (op < 7) {  // command from the computer
      const size_t room = s.rx - 1 - s.to_component.size(), len = std::min(room, (size_t)c.Int(0, 30));
      std::vector<Byte> d = Data(c, len);
      c.Note("computer sends ", Hex(d), " on ", id);
      obc->SendFromObc(id, d.data(), 0, (int)len);
      s.to_component.insert(s.to_component.end(), d.begin(), d.end());
    } else if (op < 12) {
      const unsigned offset = c.Bool() ? 0 : (unsigned)c.EdgeInt(0, (int64_t)s.rx + 3), len = (unsigned)c.EdgeInt(0, c.Bool() ? 8 : (int64_t)s.rx + 3);
      c.Note("device on ", id, " receives ", len, " at ", offset);
      s.device->parse_return = (int)c.Int(-3, 3);
      const int ret = s.device->Receive(offset, len);
      if ((size_t)offset + len > s.rx) {
        c.Check(ret == -1 && s.device->calls == 0, "receive-beyond-buffer", at, ": returned ", ret);
        continue;
      }
      const std::vector<Byte> want = Take(s.to_component, len);
      if (want.empty()) {
        c.Check(ret == 0 && s.device->calls == 0, "receive-nothing", at, ": returned ", ret, ", parser calls ", s.device->calls);
        continue;
      }
      c.Check(s.device->calls == 1 && s.device->last_size == (int)want.size(), "parser", at, ": called ", s.device->calls, " times with ", s.device->last_size, " bytes, sent ", want.size());
      c.Check(s.device->parsed == want, "command-bytes", at, ": got ", Hex(s.device->parsed), " want ", Hex(want));
      c.Check(ret == s.device->parse_return, "parser", at, ": result ", ret);
      parsed += offset > 0;
      if (offset) c.Label("command at an offset");
    } else if (op < 17) {
      const unsigned offset = c.Bool() ? 0 : (unsigned)c.EdgeInt(0, (int64_t)s.tx + 3);
      size_t len = (size_t)c.EdgeInt(0, c.Bool() ? 8 : (int64_t)s.tx + 3);
      const bool fits = offset + len <= s.tx;
      if (fits) len = std::min(len, s.tx - 1 - s.to_computer.size());
      std::vector<Byte> d = Data(c, len);
      c.Note("device on ", id, " reports ", Hex(d), " at ", offset);
      const int ret = s.device->Send(offset, d);
      c.Check(ret == (fits ? 0 : -1), "telemetry", at, ": returned ", ret, " for ", len, " bytes at ", offset, " of ", s.tx);
      if (fits) s.to_computer.insert(s.to_computer.end(), d.begin(), d.end()), reported++;
      if (fits && s.tx > s.rx && offset + len > s.rx) c.Label("telemetry longer than the command buffer");
      if (!fits) c.Label("telemetry too long");
    } else {
      const size_t len = (size_t)c.Int(0, 60);
      std::vector<Byte> got(len, 0xA5), want(len, 0xA5);
      const std::vector<Byte> t = Take(s.to_computer, len);
      std::copy(t.begin(), t.end(), want.begin());
      c.Note("computer reads ", len, " on ", id);
      const int ret = obc->ReceivedByObc(id, got.data(), 0, (int)len);
      c.Check(ret == (int)t.size() && got == want, "telemetry-bytes", at, ": returned ", ret, " ", Hex(got), " want ", Hex(want));
    }
  }
  c.NonTrivial(parsed > 0 && reported > 1);
}

// ---------------------------------------------------------------- I2C
static void Bus(Case& c) {
  s2e::environment::ClockGenerator clock;
  const bool small = c.Bool();
  const int max = small ? (int)c.EdgeInt(1, 255) : 255;
  co::I2cPort port = small ? co::I2cPort((Byte)max) : co::I2cPort();
  std::map<std::pair<int, int>, Byte> reg, cmd;
  std::vector<int> devices;
  const int nd = (int)c.Int(1, 3);
  for (int i = 0; i < nd; i++) {
    devices.push_back((int)c.Int(0, 255));
    port.RegisterDevice((Byte)devices.back());
  }
  int pointer = 0, pointer_device = devices[0];
  const int n = (int)c.Int(1, 60);
  for (int k = 0; k < n; k++) {
    const std::string at = "step " + std::to_string(k);
    const int a = c.From(devices), r = c.Chance(0.7) ? (int)c.EdgeInt(0, max) & 255 : (int)c.Int(0, 255);
    const Byte v = (Byte)c.Int(0, 255);
    switch (c.Int(0, 6)) {
      case 0: {
        c.Note("write ", a, "/", r, "=", (int)v);
        const int ret = port.WriteRegister((Byte)a, (Byte)r, v);
        c.Check(ret == (r < max), "write", at, ": returned ", ret);
        if (r < max) reg[{a, r}] = v, pointer = r, pointer_device = a;
        break;
      }
      case 1: {
        c.Note("select ", a, "/", r);
        const int ret = port.WriteRegister((Byte)a, (Byte)r);
        c.Check(ret == (r < max), "select", at, ": returned ", ret);
        if (r < max) pointer = r, pointer_device = a;
        break;
      }
      case 2: {
        c.Note("read ", a, "/", r);
        const int got = port.ReadRegister((Byte)a, (Byte)r), want = r < max ? reg[{a, r}] : 0;
        c.Check(got == want, "read", at, ": got ", got, " want ", want);
        if (r < max) pointer = r, pointer_device = a;
        break;
      }
      case 3: {  // sequential reading goes on from the register last accessed on this device
        const int m = (int)c.EdgeInt(1, c.Bool() ? 5 : 260);
        c.Note("read on ", pointer_device, " ", m);
        for (int i = 0; i < m; i++) {
          const int got = port.ReadRegister((Byte)pointer_device), want = reg[{pointer_device, pointer}];
          c.Check(got == want, "sequential-read", at, ": byte ", i, " register ", pointer, " got ", got, " want ", want);
          pointer = pointer + 1 >= max ? 0 : pointer + 1;
        }
        if (m > 1) c.NonTrivial();
        break;
      }
      case 4: {
        const size_t len = (size_t)(c.Chance(0.1) ? 255 : c.Int(0, 6));
        std::vector<Byte> d = Data(c, len);
        if (len == 1 || len == 2) d[0] = (Byte)r;
        c.Note("command ", a, " ", Hex(d));
        const int ret = port.WriteCommand((Byte)a, d.data(), (Byte)len);
        c.Check(ret == (int)len, "command", at, ": returned ", ret);
        for (size_t i = 0; i < len; i++) cmd[{a, (int)i}] = d[i];
        if ((len == 1 || len == 2) && r < max) pointer = r, pointer_device = a;
        if (len == 2 && r < max) reg[{a, r}] = d[1];
        break;
      }
      case 5: {
        const size_t len = (size_t)(c.Chance(0.1) ? 255 : c.Int(0, 8));
        std::vector<Byte> got(len, 0xA5), want(len);
        for (size_t i = 0; i < len; i++) want[i] = cmd[{a, (int)i}];
        const int ret = port.ReadCommand((Byte)a, got.data(), (Byte)len);
        c.Check(ret == (int)len && got == want, "read-command", at, ": got ", Hex(got), " want ", Hex(want));
        break;
      }
      default: {
        if (!c.Chance(0.2)) break;
        c.Note("register ", a);
        port.RegisterDevice((Byte)a);
        for (int i = 0; i < 255; i++) reg[{a, i}] = i < max ? 0 : reg[{a, i}], cmd[{a, i}] = 0;
      }
    }
  }
}
static void Targets(Case& c) {
  mission::Quiet quiet;
  s2e::environment::ClockGenerator clock;
  bool c2a;
  auto obc = Computer(c, &clock, c2a);
  struct T {
    unsigned port;
    int address;
    std::unique_ptr<Target> unit;
  };
  std::vector<T> targets;
  std::map<unsigned, std::map<std::pair<int, int>, Byte>> reg, cmd;
  std::set<unsigned> open;
  const int n = (int)c.Int(1, 60);
  int multi = 0;
  for (int k = 0; k < n; k++) {
    const std::string at = "step " + std::to_string(k);
    if (targets.empty() || (targets.size() < 4 && c.Chance(0.1))) {
      T t{(unsigned)c.Int(0, 1), (int)c.Int(0, 255), nullptr};
      t.unit = std::make_unique<Target>(t.port, (Byte)t.address, obc.get());
      if (c.Chance(0.2)) {  // moving a target keeps its connection
        auto moved = std::make_unique<Target>(std::move(*t.unit));
        t.unit = std::move(moved);
        c.Label("moved target");
      }
      c.Note("target ", t.port, "/", t.address);
      open.insert(t.port);
      for (int i = 0; i < 256; i++) reg[t.port][{t.address, i}] = 0, cmd[t.port][{t.address, i}] = 0;
      targets.push_back(std::move(t));
      continue;
    }
    const size_t w = c.Raw(targets.size());
    T& t = targets[w];
    const int len = (int)c.Int(0, 6);
    const int r = c.Chance(0.1) ? 255 - len : (int)c.Int(0, 255 - len);
    auto& m = reg[t.port];
    const bool up = open.count(t.port);
    switch (c.Int(0, c2a ? 6 : 3)) {
      case 0: {
        std::vector<Byte> d = Data(c, len), keep = d;
        c.Note("target ", t.port, "/", t.address, " writes ", r, ": ", Hex(d));
        t.unit->WriteRegister((Byte)r, d.data(), (Byte)len);
        if (up)
          for (int i = 0; i < len; i++) m[{t.address, r + i}] = d[i];
        multi += up && len > 1;
        break;
      }
      case 1: {
        std::vector<Byte> got(len, 0xA5), want(len, 0xA5);
        if (up)
          for (int i = 0; i < len; i++) want[i] = m[{t.address, r + i}];
        c.Note("target ", t.port, "/", t.address, " reads ", r, " ", len);
        t.unit->ReadRegister((Byte)r, got.data(), (Byte)len);
        c.Check(got == want, "register-bytes", at, ": got ", Hex(got), " want ", Hex(want), up ? "" : " on a closed port");
        break;
      }
      case 2: {
        std::vector<Byte> got(len, 0xA5), want(len, 0xA5);
        if (up)
          for (int i = 0; i < len; i++) want[i] = cmd[t.port][{t.address, i}];
        t.unit->ReadCommand(got.data(), (Byte)len);
        c.Check(got == want, "command-bytes", at, ": got ", Hex(got), " want ", Hex(want));
        break;
      }
      case 3: {
        if (!c.Chance(0.15)) break;
        c.Note("target ", t.port, "/", t.address, " gone");
        open.erase(t.port), reg.erase(t.port), cmd.erase(t.port);  // closing concerns the port
        targets.erase(targets.begin() + w);
        c.Label("target removed");
        break;
      }
      case 4: {
        if (!up) break;
        std::vector<Byte> d = Data(c, len);
        c.Note("computer commands ", t.port, "/", t.address, " ", Hex(d));
        co::ObcWithC2a::I2cWriteCommand((int)t.port, (Byte)t.address, d.data(), (Byte)len);
        for (int i = 0; i < len; i++) cmd[t.port][{t.address, i}] = d[i];
        if (len == 2 && d[0] < 255) m[{t.address, d[0]}] = d[1];
        break;
      }
      case 5: {
        if (!up) break;
        std::vector<Byte> d = Data(c, len + 1);
        d[0] = (Byte)r;
        c.Note("computer writes ", t.port, "/", t.address, " ", Hex(d));
        co::ObcWithC2a::I2cWriteRegister((int)t.port, (Byte)t.address, d.data(), (Byte)d.size());
        for (int i = 0; i < len; i++) m[{t.address, r + i}] = d[i + 1];
        break;
      }
      default: {
        if (!up || r >= 255) break;
        Byte sel = (Byte)r;
        std::vector<Byte> got(len), want(len);
        for (int i = 0; i < len; i++) want[i] = m[{t.address, r + i}];
        c.Note("computer reads ", t.port, "/", t.address, " ", r, " ", len);
        co::ObcWithC2a::I2cWriteRegister((int)t.port, (Byte)t.address, &sel, 1);
        co::ObcWithC2a::I2cReadRegister((int)t.port, (Byte)t.address, got.data(), (Byte)len);
        c.Check(got == want, "computer-read", at, ": got ", Hex(got), " want ", Hex(want));
        if (len > 1) c.Label("computer reads several registers");
      }
    }
  }
  c.NonTrivial(multi > 0);
}

// ---------------------------------------------------------------- digital pins
struct Listener : co::IGPIOCompo {
  std::vector<std::pair<int, bool>> events;
  void GpioStateChanged(const int port_id, const bool up) override { events.push_back({port_id, up}); }
};
static void Pins(Case& c) {
  mission::Quiet quiet;
  s2e::environment::ClockGenerator clock;
  bool c2a;
  auto obc = Computer(c, &clock, c2a);
  const int base = c2a ? (int)c.Int(0, 1000000) : 0;  // pins of the flight-software computer outlive it
  std::map<int, bool> level;
  std::vector<std::unique_ptr<PinUnit>> unit;
  std::vector<std::vector<int>> ids;
  Listener l;
  std::vector<std::pair<int, bool>> want;
  const unsigned own = (unsigned)c.Int(0, 9);
  co::GpioPort direct(own, &l), alone(own);
  bool direct_level = false, alone_level = false;
  const int n = (int)c.Int(1, 60);
  int changes = 0;
  for (int k = 0; k < n; k++) {
    const std::string at = "step " + std::to_string(k);
    const int id = base + (int)c.Int(0, 5);
    const bool up = c.Bool();
    switch (c.Int(0, 7)) {
      case 0: {
        c.Note("connect ", id);
        const int ret = obc->GpioConnectPort(id);
        c.Check(ret == (level.count(id) ? -1 : 0), "connect", at, ": returned ", ret);
        level.insert({id, false});
        break;
      }
      case 1: {
        if (!c.Chance(0.3)) break;
        std::vector<int> p;
        for (int i = (int)c.Int(1, 3); i--;) p.push_back(base + (int)c.Int(0, 5));
        unit.push_back(std::make_unique<PinUnit>(p, obc.get()));
        for (int i : p) level.insert({i, false});
        ids.push_back(p);
        break;
      }
      case 2: {
        c.Note("pin ", id, up);
        const int ret = c2a && c.Bool() ? co::ObcWithC2a::GpioWrite_C2A(id, up) : obc->GpioComponentWrite(id, up);
        c.Check(ret == (level.count(id) ? 0 : -1), "write", at, ": returned ", ret);
        if (level.count(id)) changes += level[id] != up, level[id] = up;
        break;
      }
      case 3: {
        if (unit.empty()) break;
        const size_t u = c.Raw(unit.size()), i = c.Raw(ids[u].size());
        c.Note("unit pin ", ids[u][i], up);
        unit[u]->Write((int)i, up);
        changes += level[ids[u][i]] != up, level[ids[u][i]] = up;
        break;
      }
      case 4: {
        direct.DigitalWrite(up);
        if (up != direct_level) want.push_back({(int)own, up});
        direct_level = up;
        alone.DigitalWrite(up);
        alone_level = up;
        c.Check(direct.DigitalRead() == up && alone.DigitalRead() == up, "level", at);
        c.Check(l.events == want, "edges", at, ": ", l.events.size(), " notices for ", want.size(), " edges");
        break;
      }
      default: break;
    }
    for (int i = base; i < base + 6; i++) {
      const bool w = level.count(i) && level[i];
      c.Check(obc->GpioComponentRead(i) == w, "level", at, ": pin ", i, " not ", w);
      if (c2a) c.Check(co::ObcWithC2a::GpioRead_C2A(i) == w, "level", at, ": pin ", i, " not ", w, " for the flight software");
    }
    for (size_t u = 0; u < unit.size(); u++)
      for (size_t i = 0; i < ids[u].size(); i++) c.Check(unit[u]->Read((int)i) == level[ids[u][i]], "level", at, ": pin ", ids[u][i], " seen by its component");
    c.Check(alone.DigitalRead() == alone_level, "level", at);
  }
  c.NonTrivial(changes > 3);
}

// ---------------------------------------------------------------- the sample serial component
// bytes in one report of the sample component
static int ReportLength(s2e::environment::ClockGenerator& clock, co::OnBoardComputer& obc, int port) {
  clock.TickToComponents();
  std::vector<Byte> got(1200, 0xA5);
  return obc.ReceivedByObc(port, got.data(), 0, 1200);
}
// the report holds the whole memory
static void Report(Case& c) {
  mission::Quiet quiet;
  s2e::environment::ClockGenerator clock;
  co::OnBoardComputer obc(&clock);
  const int port = (int)c.Int(0, 5);
  co::ExampleSerialCommunicationWithObc unit(&clock, port, 1, &obc);
  const int n = ReportLength(clock, obc, port);
  c.NonTrivial();
  c.Check(n == 100, n == (int)sizeof(std::vector<Byte>) ? "report-length" : "report-length-other", n, " bytes reported of 100");
}
static void Sample(Case& c) {
  mission::Quiet quiet;
  s2e::environment::ClockGenerator clock;
  co::OnBoardComputer obc(&clock);
  const int prescaler = (int)c.Int(1, 4), port = (int)c.Int(0, 5);
  co::ExampleSerialCommunicationWithObc unit(&clock, port, prescaler, &obc);
  int size;
  {
    s2e::environment::ClockGenerator other_clock;
    co::OnBoardComputer other_obc(&other_clock);
    co::ExampleSerialCommunicationWithObc other(&other_clock, port, 1, &other_obc);
    size = ReportLength(other_clock, other_obc, port);
  }
  c.Check(size >= 1 && size <= 100, "report-size", size);
  std::deque<char> memory(100, 0);
  std::deque<Byte> line, report;
  const int n = (int)c.Int(1, 60);
  int set = 0;
  for (int k = 0; k < n; k++) {
    const std::string at = "tick " + std::to_string(k);
    if (c.Bool()) {
      std::vector<Byte> d = {'S', 'E', 'T', (Byte)c.Int(0, 255), (Byte)c.Int(0, 255)};
      const int kind = (int)c.Int(0, 5);
      if (kind == 0) d[c.Raw(3)] = (Byte)c.Int(0, 255);
      if (kind == 1) d.resize(c.Raw(6));
      obc.SendFromObc(port, d.data(), 0, (int)d.size());
      c.Note("tick ", k, " ", Hex(d));
      line.insert(line.end(), d.begin(), d.end());
    }
    clock.TickToComponents();
    if (k % prescaler == 0) {
      const std::vector<Byte> t = Take(line, 5);
      if (t.size() >= 4 && t[0] == 'S' && t[1] == 'E' && t[2] == 'T') {
        memory.pop_back();
        memory.push_front((char)t[3]);
        memory[99] = '\n';
        set++;
      }
      report.insert(report.end(), memory.begin(), memory.begin() + size);
    }
    if (report.size() > 700 || c.Chance(0.3)) {
      std::vector<Byte> got(1200, 0xA5), want(1200, 0xA5);
      const int len = report.size() > 700 ? 1200 : (int)c.Int(0, 300);
      const std::vector<Byte> t = Take(report, len);
      std::copy(t.begin(), t.end(), want.begin());
      const int ret = obc.ReceivedByObc(port, got.data(), 0, len);
      c.Check(ret == (int)t.size(), "telemetry-length", at, ": ", ret, " bytes, reported ", t.size());
      c.Check(got == want, "telemetry-bytes", at, ": differ");
    }
  }
  c.NonTrivial(set > 2);
}

int main(int argc, char** argv) {
  return Main(argc, argv, "C07",
              "serial: more than 40 bytes sent, commands: a command received at an offset and two reports, bus: a sequential read of several registers, targets: a write of several registers, pins: more than three level changes, "
              "sample: more than two accepted commands",
              {{"serial", Serial, 6000, 200000, 50},
               {"commands", Commands, 4000, 120000, 50},
               {"bus", Bus, 6000, 200000, 50},
               {"targets", Targets, 4000, 120000, 50},
               {"pins", Pins, 4000, 100000, 50},
               {"sample", Sample, 1500, 30000, 50},
               {"report", Report, 20, 100, 5}},
              {"fewer bytes than the size of a ring buffer are unread at any time (overflow loses old data by design)",
               "sequential I2C reads follow an access to the same device (one register pointer is shared by the devices of a port)", "closing one I2C target closes its port for all targets, as documented for I2cCloseComPort"});
}
