// link: sim
#include <setting_file_reader/c2a_command_database.hpp>
#include <setting_file_reader/initialize_file_access.hpp>
#include <setting_file_reader/wings_operation_file.hpp>
#include "mission.hpp"
#include "rig.hpp"
// The command sender is compiled here against a stand-in of the flight software which records what it is given.
#define USE_C2A
#include <components/real/communication/wings_command_sender_to_c2a.cpp>
using pbt::Case;
using s2e::setting_file_reader::IniAccess;
namespace rd = s2e::setting_file_reader;
namespace fs = std::filesystem;
static const char* kName = "abcdefghijklmnopqrstuvwxyz_0123456789";
static const char* kText = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789._-+:=;#,()%/ ";
// ---------------------------------------------------------------- settings files
static std::string Real(Case& c, double& v) {
  char b[60];
  const char* f = c.Of<const char*>({"%.17g", "%.17g", "%.16e", "%+.17g", "%.17G", "%.3f", "%.0f"});
  v = c.Int(0, 3) == 0 ? c.Of<double>({0, -0.0, 1, -1, 1e-300, -1e300, 1e22, 123456789, 0.1, 2.5e-308}) : c.Bool() ? c.Signed(1e-12, 1e12) : c.Gauss();
  if (std::string(f) == "%.3f" || std::string(f) == "%.0f") v = (double)c.Int(-100000, 100000) / (f[2] == '3' ? 8.0 : 1.0);  // exact in the shown digits
  snprintf(b, sizeof b, f, v);
  std::string s = b;
  if (c.Int(0, 9) == 0 && s.compare(0, 2, "0.") == 0) s.erase(0, 1);  // ".5"
  return s;
}
static std::string Integer(Case& c, long& v) {
  v = c.Int(0, 3) == 0 ? c.Of<long>({0, 1, -1, 255, 65535, 2147483647, -2147483647L - 1}) : (long)c.Int(-1000000, 1000000);
  char b[40];
  if (v > 0 && c.Int(0, 9) == 0)
    snprintf(b, sizeof b, c.Bool() ? "0x%lx" : "0X%lX", v);
  else
    snprintf(b, sizeof b, c.Int(0, 9) ? "%ld" : "%+ld", v);
  return b;
}
// text as it stands in the file and as it has to be read
static std::string Text(Case& c, std::string& v) {
  std::string t;
  for (;;) {
    t = c.Word(kText, 1, 40);
    while (!t.empty() && (t.back() == ' ' || t.back() == '/')) t.pop_back();  // a comment attached to a slash would start earlier
    while (!t.empty() && (t[0] == ' ' || t[0] == '/')) t.erase(0, 1);
    for (size_t p; (p = t.find("//")) != std::string::npos;) t.erase(p, 1);
    for (size_t p; (p = t.find(" /")) != std::string::npos;) t.erase(p, 1);  // would start a comment
    if (!t.empty()) break;
    t = "x";
    break;
  }
  if (t == "NULL") t = "null";
  v = t;
  switch (c.Int(0, 7)) {
    case 0: t = "SETTINGS_DIR_FROM_EXE/" + t, v = std::string(SETTINGS_DIR_FROM_EXE) + "/" + v; break;
    case 1: t = "EXT_LIB_DIR_FROM_EXE/" + t, v = std::string(EXT_LIB_DIR_FROM_EXE) + "/" + v; break;
    case 2: t = "CORE_DIR_FROM_EXE/" + t, v = std::string(CORE_DIR_FROM_EXE) + "/" + v; break;
    case 3: {
      const std::string tail = c.Word("abcXYZ_.", 1, 8), key = c.Of<std::string>({"SETTINGS_DIR_FROM_EXE", "EXT_LIB_DIR_FROM_EXE", "CORE_DIR_FROM_EXE"});
      const std::string dir = key[0] == 'S' ? SETTINGS_DIR_FROM_EXE : key[0] == 'E' ? EXT_LIB_DIR_FROM_EXE : CORE_DIR_FROM_EXE;
      if (c.Bool()) t += ":", v += ":";
      for (int i = (int)c.Int(1, 2); i-- > 0;) t += key + "/" + tail, v += dir + "/" + tail;
      break;
    }
    default: break;
  }
  for (size_t p; (p = t.find("//")) != std::string::npos;) t.erase(p, 1), v.erase(v.find("//"), 1);
  return t;
}
struct Entry {
  int kind = 0;
  std::string key;
  std::vector<std::string> text;  // per element
  std::vector<double> real;
  std::vector<long> integer;
  std::vector<std::string> string;
  bool flag = false;
  int id = 0;
};
enum { kReal, kInt, kBool, kEnable, kString, kReals, kInts, kBytes, kStrings, kStrVector, kQuat, kOldQuat, kArray, kKinds };
static Entry AnyEntry(Case& c, const std::string& key) {
  Entry e;
  e.key = key, e.kind = (int)c.Raw(kKinds);
  double r;
  long n;
  std::string s;
  const int count = e.kind == kQuat || e.kind == kOldQuat ? 4 : e.kind >= kReals ? c.Int(0, 29) ? (int)c.Int(1, 6) : (int)c.Int(7, 150) : 1;
  for (int i = 0; i < count; i++) switch (e.kind) {
      case kReal: case kReals: case kArray: case kQuat: case kOldQuat: e.text.push_back(Real(c, r)), e.real.push_back(r); break;
      case kInt: case kInts: e.text.push_back(Integer(c, n)), e.integer.push_back(n); break;
      case kBytes: n = c.Int(0, 255), e.text.push_back(std::to_string(n)), e.integer.push_back(n); break;
      case kBool: s = c.Of<std::string>({"true", "yes", "on", "1", "TRUE", "On", "Yes", "false", "no", "off", "0", "FALSE"}), e.text.push_back(s), e.flag = s[0] == '1' || s[0] == 't' || s[0] == 'T' || s[0] == 'y' || s[0] == 'Y' || s == "on" || s == "On"; break;
      case kEnable: s = c.Of<std::string>({"ENABLE", "1", "DISABLE", "0", "ENABLED", "OFF"}), e.text.push_back(s), e.flag = s == "ENABLE" || s == "1"; break;
      default: e.text.push_back(Text(c, s)), e.string.push_back(s);
    }
  if (e.kind == kQuat && e.real[0] * e.real[0] + e.real[1] * e.real[1] + e.real[2] * e.real[2] + e.real[3] * e.real[3] == 0) e.real[3] = 1, e.text[3] = "1";
  e.id = (int)c.Int(0, 30);
  return e;
}
static std::string Key(const Entry& e, size_t i) {
  if (e.kind < kReals) return e.key;
  const std::string k = "(" + std::to_string(i) + ")";
  return e.kind == kQuat ? e.key + "_" + k : e.kind == kArray ? e.key + std::to_string(e.id) + k : e.key + k;
}
static std::string Blank(Case& c) { return c.Int(0, 2) ? "" : c.Word(" \t", 1, 4); }
static void Settings(Case& c) {
  mission::Quiet quiet;
  std::map<std::string, std::vector<Entry>> sec;
  std::string file;
  if (c.Int(0, 9) == 0) file += "\xef\xbb\xbf";
  const std::string eol = c.Int(0, 2) ? "\n" : "\r\n";
  std::vector<std::pair<std::string, std::string>> lines;  // section, line
  int total = 0;
  for (int n = (int)c.Int(1, 5), i = 0; i < n; i++) {
    const std::string name = "S" + std::to_string(i) + "_" + c.Word("ABCDEFGHIJKLMNOPQRSTUVWXYZ_0123456789", 0, 30);
    for (int m = (int)c.Int(0, 8), j = 0; j < m; j++) {
      Entry e = AnyEntry(c, "k" + std::to_string(j) + "_" + c.Word(kName, 0, 30) + "_");
      for (size_t k = 0; k < e.text.size(); k++) {
        std::string l = Blank(c) + Key(e, k) + Blank(c) + (c.Int(0, 9) ? "=" : ":") + Blank(c) + e.text[k];
        switch (c.Int(0, 7)) {
          case 0: l += " // a comment"; break;
          case 1: l += "\t// k0 = 5"; break;
          case 2: l += " /"; break;
          case 3:
            if (e.kind != kBool) l += "// attached = 3";
            break;
          default: l += Blank(c);
        }
        if (l.size() < 195) lines.emplace_back(name, l);
        else if (e.kind != kStrVector) lines.emplace_back(name, Key(e, k) + "=" + e.text[k]);
        total++;
      }
      sec[name].push_back(e);
    }
    sec[name];
  }
  // entries keep their section; lists keep nothing else: shuffle within sections, split sections in two parts now and then
  std::vector<std::string> order;
  for (auto& s : sec) {
    order.push_back(s.first);
    if (c.Int(0, 3) == 0) order.push_back(s.first);
  }
  for (size_t i = order.size(); i > 1; i--) std::swap(order[i - 1], order[c.Raw(i)]);
  for (auto& name : order) {
    file += Blank(c) + "[" + name + "]" + (c.Int(0, 5) ? "" : " // section") + eol;
    bool later = false;
    for (size_t i = (&name - &order[0]) + 1; i < order.size(); i++) later |= order[i] == name;
    for (size_t i = 0; i < lines.size();) {
      if (lines[i].first != name || (later && c.Bool())) {
        i++;
        continue;
      }
      file += lines[i].second + eol;
      lines.erase(lines.begin() + i);
      while (c.Int(0, 5) == 0) file += c.Of<std::string>({"", "// comment = 1", "   // [S0_]", "\t", "/ single"}) + eol;
    }
  }
  if (c.Bool() && file.size() > eol.size()) file.erase(file.size() - eol.size());  // no newline at the end
  const std::string path = c.TempDir() + "/s.ini";
  mission::Spit(path, file);
  c.Note("file:\n", file);
  IniAccess ini(path);
  if (total > 3) c.NonTrivial();
  for (auto& s : sec) {
    const char* S = s.first.c_str();
    for (const Entry& e : s.second) {
      const char* K = e.key.c_str();
      const std::string what = "[" + s.first + "] " + e.key;
      const size_t n = e.text.size();
      switch (e.kind) {
        case kReal: c.Check(ini.ReadDouble(S, K) == e.real[0], "real", what, ": ", ini.ReadDouble(S, K), " for ", e.text[0]); break;
        case kInt: c.Check(ini.ReadInt(S, K) == e.integer[0], "integer", what, ": ", ini.ReadInt(S, K), " for ", e.text[0]); break;
        case kBool: c.Check(ini.ReadBoolean(S, K) == e.flag, "flag", what, ": ", e.text[0]); break;
        case kEnable: c.Check(ini.ReadEnable(S, K) == e.flag, "enable", what, ": ", e.text[0]); break;
        case kString: {
          c.Check(ini.ReadString(S, K) == e.string[0], "string", what, ": '", ini.ReadString(S, K), "' for '", e.string[0], "'");
          char b[300];
          const int size = (int)c.Int(1, 290);
          memset(b, 'x', sizeof b);
          ini.ReadChar(S, K, size, b);
          c.Check((int)strnlen(b, size) < size, "characters", what, ": not terminated in ", size, " characters");
          c.Check(std::string(b) == e.string[0].substr(0, size - 1), "characters", what, ": '", b, "'");
          for (int i = size; i < 300; i++) c.Check(b[i] == 'x', "characters", what, ": written behind the buffer");
          break;
        }
        case kReals: {
          const auto v = ini.ReadVectorDouble(S, K, n);
          c.Check(v == e.real, "reals", what);
          s2e::math::Vector<3> m(7.0);
          ini.ReadVector<3>(S, K, m);
          for (size_t i = 0; i < 3; i++) c.Check(m[i] == (i < n ? e.real[i] : 0), "vector", what, " element ", i, ": ", m[i]);
          break;
        }
        case kInts: {
          const auto v = ini.ReadVectorInt(S, K, n);
          c.Check(v.size() == n, "integers", what);
          for (size_t i = 0; i < n; i++) c.Check(v[i] == e.integer[i], "integers", what, " element ", i, ": ", v[i], " for ", e.text[i]);
          break;
        }
        case kBytes: {
          const auto v = ini.ReadVectorUnsignedChar(S, K, n);
          c.Check(v.size() == n, "bytes", what);
          for (size_t i = 0; i < n; i++) c.Check(v[i] == e.integer[i], "bytes", what, " element ", i, ": ", (int)v[i]);
          break;
        }
        case kStrings: c.Check(ini.ReadVectorString(S, K, n) == e.string, "strings", what); break;
        case kStrVector: {
          const auto v = ini.ReadStrVector(S, K);
          c.Check(v == e.string, "string-list", what, ": ", v.size(), " of ", n, " read");
          break;
        }
        case kQuat: case kOldQuat: {
          s2e::math::Quaternion q(1, 2, 3, 4);
          ini.ReadQuaternion(S, K, q);
          for (size_t i = 0; i < 4; i++) c.Check(q[i] == e.real[i], "quaternion", what, " element ", i, ": ", q[i], " for ", e.text[i]);
          break;
        }
        case kArray: {
          std::vector<double> v(n, -7);
          ini.ReadDoubleArray(S, K, e.id, (int)n, v.data());
          c.Check(v == e.real, "array", what);
          break;
        }
      }
    }
    // nothing is invented: another section's key, an absent key, an absent section
    for (const std::string& key : {std::string("zz_absent"), sec.begin()->second.empty() || sec.begin()->first == s.first ? std::string("zz") : sec.begin()->second[0].key + "zz"})
      for (const std::string& section : {s.first, std::string("ABSENT")}) {
        const char *A = section.c_str(), *K = key.c_str();
        c.Check(ini.ReadDouble(A, K) == 0 && ini.ReadInt(A, K) == 0 && !ini.ReadBoolean(A, K) && !ini.ReadEnable(A, K), "absent", section, " ", key);
        c.Check(ini.ReadString(A, K) == "NULL" && ini.ReadStrVector(A, K).empty(), "absent", section, " ", key);
        c.Check(ini.ReadVectorDouble(A, K, 3) == std::vector<double>(3, 0.0) && ini.ReadVectorInt(A, K, 2) == std::vector<int>(2, 0), "absent", section, " ", key);
      }
  }
}
// values that do not fit the reader's line are not silently shortened
static void Long(Case& c) {
  mission::Quiet quiet;
  std::string path;
  const size_t n = (size_t)(c.Bool() ? c.Int(1, 400) : c.Int(170, 215));
  while (path.size() < n) path += "/" + c.Word(kName, 1, 30);
  path.resize(n);
  const bool comment = c.Int(0, 3) == 0;
  std::string line = comment ? "// " + path + " k = 9" : "k=" + path;
  const std::string file = "[A]\na = 1\n" + line + (c.Bool() ? "\n" : "\r\n") + "b = 2\n" + (c.Bool() ? "[B]\nc = 3\n" : "");
  const std::string f = c.TempDir() + "/s.ini";
  mission::Spit(f, file);
  c.Note("file:\n", file);
  c.NonTrivial(line.size() > 190);
  try {
    IniAccess ini(f);
    c.Label("read");
    c.Check(ini.ReadString("A", "k") == (comment ? "NULL" : path), "long", "'", ini.ReadString("A", "k"), "' for '", comment ? "NULL" : path, "'");
    c.Check(ini.ReadInt("A", "a") == 1 && ini.ReadInt("A", "b") == 2, "long", "neighbours");
  } catch (std::runtime_error&) {
    c.Label("rejected");
    c.Check(line.size() > 190, "rejected", "a line of ", line.size(), " characters");
  }
}
// ---------------------------------------------------------------- tables
static void Tables(Case& c) {
  mission::Quiet quiet;
  const int rows = c.Int(0, 39) ? (int)c.Int(0, 12) : (int)c.Int(13, 700), cols = c.Int(0, 39) ? (int)c.Int(1, 8) : (int)c.Int(9, 150), head = (int)c.Int(0, 5), side = (int)c.Int(0, std::min(2, cols));
  std::string text;
  std::vector<std::vector<double>> num;
  std::vector<std::vector<std::string>> str;
  for (int r = 0; r < rows + head; r++) {
    std::vector<double> n;
    std::vector<std::string> s;
    const bool empty = r < head ? c.Int(0, 5) == 0 : c.Int(0, 15) == 0;  // a blank line is a row without columns
    const int k = empty ? 0 : c.Int(0, 5) ? cols : (int)c.Int(1, cols);
    for (int i = 0; i < k; i++) {
      std::string w;
      double v = 0;
      if (r < head || i < side) {
        w = c.Word("abcXYZ _.", 1, 8);
      } else {
        w = Blank(c) + Real(c, v);
        n.push_back(v);
      }
      s.push_back(w);
      text += (i ? "," : "") + w;
    }
    if (r + 1 < rows + head || !k || c.Bool()) text += "\n";
    if (r >= head) num.push_back(n);
    str.push_back(s);
  }
  const std::string f = c.TempDir() + "/t.csv";
  mission::Spit(f, text);
  c.Note("table:\n", text);
  IniAccess csv(f);
  std::vector<std::vector<double>> got;
  csv.ReadCsvDoubleWithHeader(got, cols, head, side);
  if (rows > 1) c.NonTrivial();
  c.Check(got == num, "numbers", got.size(), " rows of ", num.size());
  std::vector<std::vector<std::string>> words;
  csv.ReadCsvString(words, cols);
  c.Check(words == str, "words", words.size(), " rows of ", str.size());
  if (!head && !side) {
    got.clear();
    csv.ReadCsvDouble(got, cols);
    c.Check(got == num, "numbers-plain", got.size(), " rows of ", num.size());
  }
  // independent reading of separators
  const std::string l = c.Word("ab,;", 0, 12);
  std::vector<std::string> want;
  std::string cur;
  for (char ch : l) {
    if (ch == ';') want.push_back(cur), cur.clear();
    else cur += ch;
  }
  if (!cur.empty()) want.push_back(cur);
  c.Check(csv.Split(l, ';') == want, "split", l);
}
// ---------------------------------------------------------------- commands
static const char* kTypes[] = {"uint8_t", "uint16_t", "uint32_t", "uint64_t", "int8_t", "int16_t", "int32_t", "int64_t", "float", "double"};
static const int kSize[] = {1, 2, 4, 8, 1, 2, 4, 8, 4, 8};
struct Command {
  std::string name;
  unsigned id = 0;
  std::vector<int> types;
};
static std::string Database(Case& c, std::vector<Command>& cmds) {
  std::string db;
  if (c.Bool()) db += "Component,Name,Target,Code,Params,,,,\nMOBC,,,,Num Params,Param1,,Param2,\nComment,,,,,Type,Description,Type,Description\n";
  for (int n = (int)c.Int(1, 12), i = 0; i < n; i++) {
    if (c.Int(0, 3) == 0) db += c.Of<std::string>({"*,EXAMPLE,OBC,,2,uint32_t,address,int32_t,time [ms],,\n", "* C2A_CORE,functions,,,,,\n", "*,,,,,\n"});
    Command k;
    k.name = "C" + std::to_string(i) + "_" + c.Word("ABCDEFGHIJ_0123456789", 0, 20);
    k.id = (unsigned)c.Int(0, 0xffff);
    for (int m = (int)c.Int(0, 6), a = 0; a < m; a++) k.types.push_back((int)c.Raw(10));
    char id[20];
    snprintf(id, sizeof id, c.Int(0, 3) ? "0x%04X" : "%u", k.id);
    db += "," + k.name + ",OBC," + id + "," + std::to_string(k.types.size());
    for (int t : k.types) db += std::string(",") + kTypes[t] + "," + (c.Bool() ? "" : c.Word("abc []", 0, 6));
    if (c.Bool()) {
      for (size_t a = k.types.size(); a < 6; a++) db += ",,";
      db += ",danger,restricted,description,note";
    }
    db += "\n";
    cmds.push_back(k);
  }
  return db;
}
static std::string Argument(Case& c, int type, std::vector<uint8_t>& big) {
  const int size = kSize[type];
  uint64_t bits;
  std::string s;
  if (type < 4) {
    bits = c.Int(0, 3) == 0 ? c.Of<uint64_t>({0, 1, ~0ull, 1ull << 63, 0x0102030405060708ull}) : c.Raw(~0ull);
    if (size < 8) bits &= (1ull << 8 * size) - 1;
    s = std::to_string(bits);
  } else if (type < 8) {
    const int64_t hi = (int64_t)((1ull << (8 * size - 1)) - 1), lo = -hi - 1;
    const int64_t v = c.Int(0, 3) == 0 ? c.Of<int64_t>({0, 1, -1, hi, lo}) : (int64_t)(c.Raw(~0ull) >> c.Int(0, 63)) % (hi / 2 + 1) * (c.Bool() ? -1 : 1);
    bits = (uint64_t)v, s = std::to_string(v);
  } else {
    double v = c.Int(0, 3) == 0 ? c.Of<double>({0, 1, -1, 0.1, 1e10}) : c.Signed(1e-20, 1e20);
    if (type == 8) {
      const float x = (float)v;
      uint32_t b;
      memcpy(&b, &x, 4), bits = b, v = x;
    } else
      memcpy(&bits, &v, 8);
    s = mission::Num(v);
  }
  for (int i = size; i-- > 0;) big.push_back((uint8_t)(bits >> 8 * i));
  return s;
}
static void Commands(Case& c) {
  mission::Quiet quiet;
  std::vector<Command> cmds;
  const std::string f = c.TempDir() + "/db.csv", db = Database(c, cmds);
  mission::Spit(f, db);
  c.Note("database:\n", db);
  rd::C2aCommandDatabase base(f);
  c.NonTrivial(cmds.size() > 1);
  for (auto& k : cmds) {
    auto info = base.GetCommandInformation(k.name);
    c.Check(info.GetCommandName() == k.name && info.GetCommandId() == k.id && info.GetNumberOfArgument() == k.types.size(), "command", k.name, ": id ", info.GetCommandId(), " of ", k.id, ", ", info.GetNumberOfArgument(),
            " arguments of ", k.types.size());
    for (size_t a = 0; a < k.types.size(); a++) c.Check((int)info.GetArgumentType(a) == k.types[a], "type", k.name, " argument ", a);
    c.Check(info.GetArgumentType(k.types.size()) == rd::C2aArgumentType::kError, "type", "behind the last");
    for (size_t a = 0; a < k.types.size(); a++) {
      std::vector<uint8_t> want;
      const std::string s = Argument(c, k.types[a], want);
      std::vector<uint8_t> got(8, 0xa5);
      size_t n = 99;
      rd::DecodeC2aCommandArgument(info.GetArgumentType(a), s, got.data(), n);
      c.Check(n == want.size(), "argument-size", kTypes[k.types[a]], " ", s, ": ", n);
      for (size_t i = 0; i < 8; i++) c.Check(got[i] == (i < n ? want[i] : 0xa5), "argument", kTypes[k.types[a]], " ", s, ": byte ", i, " ", (int)got[i]);
    }
  }
  for (const char* other : {"", "NOT_THERE", "OBC", "EXAMPLE", "Name"}) c.Check(base.GetCommandInformation(other).GetCommandName() == "Error" && base.GetCommandInformation(other).GetNumberOfArgument() == 0, "unknown", other);
}
// the lines of an operation file, without marks and comments, and then its end for good
static void Lines(Case& c) {
  mission::Quiet quiet;
  std::string text;
  std::vector<std::string> want;
  for (int n = (int)c.Int(0, 20), i = 0; i < n; i++) {
    std::string l = c.Int(0, 4) ? c.Word("abcXYZ_.", 1, 3) + c.Word("abc XYZ_.{}019", 2, 40) : "";
    while (!l.empty() && (l[0] == '.' || l[0] == ' ')) l[0] = 'x';
    if (!l.empty()) want.push_back(l);
    text += c.Of<std::string>({"", ".", " ", ". "}) + l;
    if (c.Int(0, 3) == 0) {
      if (!l.empty()) want.back() += " ";
      text += std::string(l.empty() ? "" : " ") + "#" + c.Word("abc # .19", 0, 20);
    }
    if (i + 1 < n || c.Bool()) text += "\n";
  }
  const std::string f = c.TempDir() + "/x.ops";
  mission::Spit(f, text);
  c.Note("file:\n", text);
  rd::WingsOperationFile file(f);
  for (size_t i = 0; i < want.size(); i++) {
    const std::string got = file.GetLatestLine();
    c.Check(got == want[i], "line", "line ", i, ": '", got, "' for '", want[i], "'");
  }
  for (int k = 0; k < 3; k++) {
    const std::string got = file.GetLatestLine();
    c.Check(got == "EOL", "end-of-file", "'", got, "' behind the last line");
  }
  c.NonTrivial(want.size() > 2);
}
// an operation file executed by the sender: every command once, in order, as encoded in the database, and not before its waits are over
static void Operation(Case& c) {
  mission::Quiet quiet;
  std::vector<Command> cmds;
  const std::string dir = c.TempDir(), db = Database(c, cmds);
  std::string ops;
  struct Want {
    FakeCommand cmd;
    double earliest, latest;  // since the command or line before [s]
  };
  std::vector<Want> want;
  const int p = (int)c.Int(0, 3), prescaler = std::max(1, p);
  const double base = c.Of<double>({0.1, 0.5, 1, 0.25}), step = base * prescaler;
  int ticks = 5;
  double lo = 0, hi = 0;
  bool waited = false;
  for (int n = (int)c.Int(1, 15), i = 0; i < n; i++) {
    const int op = (int)c.Int(0, 9);
    const char* lead = c.Of<const char*>({" ", ".", "", "."});
    if (op == 0) {
      ops += c.Of<std::string>({".# comment MOBC_RT.NOP\n", "\n", " # wait_sec 5\n", ".\n", "  \n"});
    } else if (op <= 2) {
      const double s = c.Int(0, 3) ? c.Real(0, 6) : (double)c.Int(0, 5);
      ops += std::string(lead) + "wait_sec " + mission::Num(s) + (c.Bool() ? " # pause" : "") + "\n";
      lo += s + step, hi += s + 2 * step, waited = true;
      ticks += (int)(s / step) + 3;
    } else if (op == 3) {
      ops += std::string(lead) + c.Of<std::string>({"check_value  # none", "let mode = 2", "check_value OBC.x is 3"}) + "\n";
      lo += step, hi += step, ticks++;
    } else if (op == 4) {
      // commands which cannot be sent are not sent
      ops += std::string(lead) + c.Of<std::string>({"MOBC_RT.UNKNOWN_COMMAND", "MOBC_RT.UNKNOWN 5", "MOBC_TL.UNKNOWN 5 6", "MOBC_RT.C0_ {mode}", "MOBC", "MOBC_RT"}) + "\n";
      lo += step, hi += step, ticks++;
    } else {
      const Command& k = c.From(cmds);
      Want w;
      w.cmd.timeline = c.Int(0, 2) == 0, w.cmd.ti = 0, w.cmd.id = (int)k.id;
      const bool wrong = c.Int(0, 9) == 0;
      ops += std::string(lead) + c.Of<std::string>({"MOBC", "AOBC"}) + (w.cmd.timeline ? "_TL." : "_RT.") + k.name;
      if (w.cmd.timeline) w.cmd.ti = (uint32_t)(c.Bool() ? c.Int(0, 100000) : c.Raw(1ull << 32)), ops += " " + std::to_string(w.cmd.ti);
      for (int t : k.types) ops += (c.Bool() ? " " : "  ") + Argument(c, t, w.cmd.param);
      if (wrong) ops += " 1";
      ops += std::string(c.Int(0, 4) ? "" : " # sent") + "\n";
      lo += step, hi += step, ticks++;
      if (!wrong) w.earliest = lo, w.latest = hi, lo = hi = 0, want.push_back(w);
    }
  }
  mission::Spit(dir + "/db.csv", db), mission::Spit(dir + "/x.ops", ops);
  const bool enabled = c.Int(0, 9) > 0;
  mission::Spit(dir + "/s.ini", std::string("[WINGS_COMMAND_SENDER_TO_C2A]\ncommand_send_enable=") + (enabled ? "ENABLE" : "DISABLE") + "\nprescaler=" + std::to_string(p) + "\nc2a_command_database_file=" + dir + "/db.csv\nwings_operation_file=" + dir +
                                     "/x.ops\n");
  c.Note("prescaler ", p, " step ", base, enabled ? "" : " disabled", "\n", db, ops);
  s2e::environment::ClockGenerator clock;
  auto sender = s2e::components::InitWingsCommandSenderToC2a(&clock, base, dir + "/s.ini");
  fake_commands.clear();
  size_t seen = 0;
  double last = -step;
  for (int k = 0; k < (ticks + 20) * prescaler; k++) {
    clock.TickToComponents();
    const double now = k * base;
    c.Check(fake_commands.size() <= seen + 1, "once", "several commands in one tick");
    if (fake_commands.size() == seen) continue;
    const FakeCommand& g = fake_commands[seen];
    c.Check(enabled, "disabled", "a command is sent");
    c.Check(seen < want.size(), "extra", "command ", g.id, " at ", now);
    const Want& w = want[seen];
    const std::string what = "command " + std::to_string(seen) + " at " + mission::Num(now);
    c.Check(g.timeline == w.cmd.timeline && g.ti == w.cmd.ti && g.id == w.cmd.id, "command-sent", what, ": id ", g.id, " of ", w.cmd.id, " ti ", g.ti, " of ", w.cmd.ti);
    c.Check(g.param == w.cmd.param, "parameters", what, ": ", g.param.size(), " bytes of ", w.cmd.param.size());
    c.Check(now - last > w.earliest - 1e-9 && now - last < w.latest + step * 1e-6 + 1e-9, "time", what, ": ", now - last, " s after the one before, not in ", w.earliest, " to ", w.latest);
    last = now, seen++;
  }
  c.Check(!enabled || seen == want.size(), "missing", seen, " commands of ", want.size(), " sent");
  if (enabled && want.size() > 1 && waited) c.NonTrivial();
}
// ---------------------------------------------------------------- damaged files
static std::string Damage(Case& c, std::string t) {
  for (int n = (int)c.Int(1, 6), i = 0; i < n; i++) {
    const size_t p = t.empty() ? 0 : c.Raw(t.size()), q = std::min(t.size(), p + c.Raw(c.Bool() ? 4 : 200));
    switch (c.Int(0, 8)) {
      case 0: t.resize(p); break;
      case 1: t.erase(p, q - p); break;
      case 2: t.insert(p, t.substr(p, q - p)); break;
      case 3: t.insert(p, c.Word("=[](),:/#.*\r\n \t\"'0-9eE+", 1, 10)); break;
      case 4: t.insert(p, std::string((size_t)c.Int(1, 3000), (char)c.Int(0, 255))); break;
      case 5:
        if (p < t.size()) t[p] = (char)c.Int(0, 255);
        break;
      case 6: t.insert(p, c.Of<std::string>({"\n\n", ",,,,,,,,", "99999999999999999999", "-1", "nan", "[", "]", "1e999", "\n,\n", "\n,X\n", "\n.wait_sec\n", "\n .     \n", "\nMOBC_TL.NOP\n"})); break;
      case 7: {
        std::string l = t.substr(p, q - p) + "\n";
        for (int k = (int)c.Int(1, 2000); k-- > 0 && l.size() < 20000;) l += l.substr(0, q - p + 1);
        t.insert(p, l);
        break;
      }
      default: {  // a line away
        const size_t b = t.rfind('\n', p), e = t.find('\n', p);
        if (b != std::string::npos && e != std::string::npos && b < e) t.erase(b, e - b);
      }
    }
  }
  return t;
}
static const std::vector<std::string>& Shipped(const std::string& ext) {
  static std::map<std::string, std::vector<std::string>> m;
  auto& v = m[ext];
  if (v.empty()) {
    std::vector<fs::path> p;
    for (auto& e : fs::recursive_directory_iterator(VERIF_REPO "/example/settings"))
      if (e.is_regular_file() && e.path().extension() == ext && fs::file_size(e.path()) < 40000) p.push_back(e.path());
    std::sort(p.begin(), p.end());
    for (auto& x : p) v.push_back(mission::Slurp(x));
  }
  return v;
}
static void DamagedSettings(Case& c) {
  mission::Quiet quiet;
  std::string t = c.Int(0, 4) ? c.From(Shipped(".ini")) : "[A]\nk=1\nv(0)=2\n" + c.Word("abk=[]/ \n", 0, 200);
  if (c.Int(0, 9) == 0) {  // the same key again and again
    t += "\n[A]\nk=x\n";
    const std::string l = c.Of<std::string>({"k=\n", "k=y\n", "k= / \n"});
    for (int n = (int)c.LogReal(1, 200000); n-- > 0;) t += l;
    c.Label("repeated key");
  } else
    t = Damage(c, t);
  const std::string f = c.TempDir() + "/s.ini";
  mission::Spit(f, t);
  c.Note("size ", t.size(), "\n", t.substr(0, 3000));
  try {
    IniAccess ini(f);
    c.Label("read"), c.NonTrivial();
    // keys that look like present ones
    std::string section = "A";
    std::istringstream is(t);
    std::string l;
    for (int n = 0; n < 40 && std::getline(is, l);) {
      if (!l.empty() && l[0] == '[') section = l.substr(1, l.find(']') == std::string::npos ? std::string::npos : l.find(']') - 1);
      const size_t e = l.find_first_of("=:");
      if (e == std::string::npos) continue;
      std::string k = l.substr(0, l.find_first_of(" \t=:("));
      n++;
      const char *S = section.c_str(), *K = k.c_str();
      char b[80];
      ini.ReadDouble(S, K), ini.ReadInt(S, K), ini.ReadBoolean(S, K), ini.ReadEnable(S, K);
      const std::string v = ini.ReadString(S, K);
      c.Check(v == ini.ReadString(S, K), "stable", k);
      ini.ReadChar(S, K, 80, b);
      c.Check(strnlen(b, 80) < 80, "characters", "not terminated");
      ini.ReadStrVector(S, K), ini.ReadVectorDouble(S, K, 4), ini.ReadVectorInt(S, K, 4), ini.ReadVectorUnsignedChar(S, K, 4), ini.ReadVectorString(S, K, 3);
      s2e::math::Quaternion q;
      ini.ReadQuaternion(S, K, q);
    }
    ini.ReadString("A", "k");
  } catch (std::exception&) {
    c.Label("rejected");
  }
}
static void DamagedTables(Case& c) {
  mission::Quiet quiet;
  const std::string t = Damage(c, c.Int(0, 3) ? c.From(Shipped(".csv")) : "1,2,3\n4,5,6\n");
  const std::string f = c.TempDir() + (c.Int(0, 5) ? "/t.csv" : "/" + c.Word("abc", 0, 3));
  if (f.back() == '/') c.Skip();
  mission::Spit(f, t);
  c.Note("size ", t.size(), "\n", t.substr(0, 3000));
  const int head = (int)c.Int(0, 3), side = (int)c.Int(0, 3);
  for (int kind = 0; kind < 3; kind++) try {
      IniAccess csv(f);
      std::vector<std::vector<double>> v;
      std::vector<std::vector<std::string>> s;
      if (kind == 0) csv.ReadCsvDouble(v, 10);
      if (kind == 1) csv.ReadCsvDoubleWithHeader(v, 10, head, side);
      if (kind == 2) csv.ReadCsvString(s, 10);
      c.NonTrivial();
    } catch (std::exception&) {
      c.Label("rejected");
    }
}
static void DamagedCommands(Case& c) {
  mission::Quiet quiet;
  const std::string dir = c.TempDir();
  static const std::string base = VERIF_REPO "/example/settings/sample_satellite/components/wings_command_sender_to_c2a/";
  static const std::string shipped_db = mission::Slurp(base + "SAMPLE_MOBC_CMD_DB_CMD_DB.csv").substr(0, 6000), shipped_ops = mission::Slurp(base + "example.ops");
  std::vector<Command> cmds;
  std::string db = c.Bool() ? shipped_db : Database(c, cmds), ops = shipped_ops;
  for (int n = (int)c.Int(0, 6); n-- > 0;) {
    const std::string name = cmds.empty() ? c.Of<std::string>({"NOP", "TMGR_SET_TIME", "TMGR_UPDATE_UNIXTIME", "AM_REGISTER_APP", "X"}) : c.From(cmds).name;
    ops += c.Of<std::string>({" ", "."}) + "MOBC_" + c.Of<std::string>({"RT", "TL", "BL", "XX", ""}) + "." + name;
    for (int k = (int)c.Int(0, 8); k-- > 0;) ops += " " + c.Of<std::string>({"1", "-1", "3.5", "1e30", "x", "0x10", "{a}", "99999999999999999999999"});
    ops += "\n";
  }
  if (c.Int(0, 3)) db = Damage(c, db);
  if (c.Int(0, 3)) ops = Damage(c, ops);
  mission::Spit(dir + "/db.csv", db), mission::Spit(dir + "/x.ops", ops);
  mission::Spit(dir + "/s.ini", "[WINGS_COMMAND_SENDER_TO_C2A]\ncommand_send_enable=1\nc2a_command_database_file=" + dir + "/db.csv\nwings_operation_file=" + dir + "/x.ops\n");
  c.Note(ops.substr(0, 1500), "\n", db.substr(0, 2000));
  try {
    s2e::environment::ClockGenerator clock;
    auto sender = s2e::components::InitWingsCommandSenderToC2a(&clock, 1, dir + "/s.ini");
    fake_commands.clear();
    for (int k = 0; k < 300; k++) {
      try {
        clock.TickToComponents();
      } catch (std::exception&) {
        c.Label("line rejected");
      }
    }
    c.NonTrivial();
  } catch (std::exception&) {
    c.Label("database rejected");
  }
}
int main(int argc, char** argv) {
  return pbt::Main(argc, argv, "U01",
                   "settings: more than three values; long: a line near or above the reader's limit; tables: several rows; commands: several; operation: several commands and a wait; damaged: the reader accepted the file",
                   {{"settings", Settings, 6000, 150000, 100, 20},
                    {"long", Long, 2000, 50000, 100, 20},
                    {"tables", Tables, 6000, 150000, 100, 20},
                    {"commands", Commands, 3000, 80000, 100, 20},
                    {"lines", Lines, 3000, 100000, 200, 20}, {"operation", Operation, 3000, 80000, 100, 20},
                    {"damaged-settings", DamagedSettings, 3000, 80000, 50, 40},
                    {"damaged-tables", DamagedTables, 3000, 80000, 100, 20},
                    {"damaged-commands", DamagedCommands, 3000, 80000, 100, 20}},
                   {"an exception is a rejection", "settings lines are at most 200 characters (longer ones have to be rejected)", "numbers without leading zeros; arguments decimal"});
}
