// Common part of the interpreter harnesses: a virtual machine with an extra
// extension whose methods hand symbolic inputs to scripts and record what a
// script does.
#pragma once
#include "sx.h"

#include <Core/Common/Exceptions.h>
#include <Core/Common/Method.h>
#include <Core/Common/Namespace.h>
#include <Core/Consts.h>
#include <Core/Extensions/AExtension.h>
#include <Core/Extensions/ExtensionMethod.h>
#include <Core/Runtime/BuildInTypes/BoolType.h>
#include <Core/Runtime/BuildInTypes/DoubleType.h>
#include <Core/Runtime/BuildInTypes/FloatType.h>
#include <Core/Runtime/BuildInTypes/Int16Type.h>
#include <Core/Runtime/BuildInTypes/Int32Type.h>
#include <Core/Runtime/BuildInTypes/Int64Type.h>
#include <Core/Runtime/BuildInTypes/StringType.h>
#include <Core/Runtime/ControlFlow.h>
#include <Core/Runtime/Script.h>
#include <Core/VirtualMachine/Controller.h>
#include <Core/VirtualMachine/Threads.h>
#include <Core/VirtualMachine/VirtualMachine.h>
#include <Tools/Printer.h>
#include <cstring>

#include <deque>
#include <string>
#include <vector>

#ifdef WITH_EXTENSIONS
#include <Extensions.h>
#endif

namespace H {

using namespace Slang;

// ---------------------------------------------------------------- recorded behaviour
struct Ev {
  int64_t tag;
  int64_t val;
  std::string str;
};
static std::vector<Ev> trace;

class Emit : public Extensions::ExtensionMethod {
public:
  Emit(const char *name, const char *type) : ExtensionMethod(nullptr, name, _void), mKind(type) {
    ParameterList params;
    params.push_back(Parameter::CreateDesigntime("value", Common::TypeDeclaration(type)));
    setSignature(params);
  }
  Runtime::ControlFlow::E execute(const ParameterList &params, Runtime::Object *) override {
    const auto &v = params.front().value();
    if (mKind == _string)
      trace.push_back({1, 0, v.toStdString()});
    else if (mKind == _double) {
      double d = v.toDouble();
      int64_t b;
      memcpy(&b, &d, 8);
      trace.push_back({2, b, ""});
    } else if (mKind == _bool)
      trace.push_back({3, v.toBool(), ""});
    else
      trace.push_back({0, v.toInt(), ""});
    return Runtime::ControlFlow::Normal;
  }
  std::string mKind;
};

// fails with a C++ exception when its argument is zero
class Fail : public Extensions::ExtensionMethod {
public:
  Fail() : ExtensionMethod(nullptr, "failx", _int32) {
    ParameterList params;
    params.push_back(Parameter::CreateDesigntime("value", Common::TypeDeclaration(_int32)));
    setSignature(params);
  }
  Runtime::ControlFlow::E execute(const ParameterList &params, Runtime::Object *result) override {
    int v = params.front().value().toInt();
    if (v == 0) throw Common::Exceptions::Exception("failx");
    *result = Runtime::Int32Type(v);
    return Runtime::ControlFlow::Normal;
  }
};

class Sym : public Extensions::ExtensionMethod {
public:
  Sym(const char *name, const char *type) : ExtensionMethod(nullptr, name, type), mKind(type) {
    ParameterList params;
    params.push_back(Parameter::CreateDesigntime("name", Common::TypeDeclaration(_string)));
    setSignature(params);
  }
  Runtime::ControlFlow::E execute(const ParameterList &params, Runtime::Object *result) override {
    std::string n = params.front().value().toStdString();
    if (mKind == _int32) *result = Runtime::Int32Type(sx_i32(n.c_str()));
    else if (mKind == _int16) *result = Runtime::Int16Type(sx_i16(n.c_str()));
    else if (mKind == _int64) *result = Runtime::Int64Type(sx_i64(n.c_str()));
    else if (mKind == _bool) *result = Runtime::BoolType(sx_bool(n.c_str()));
    else if (mKind == _double) *result = Runtime::DoubleType(sx_f64(n.c_str()));
    else if (mKind == _float) *result = Runtime::FloatType(sx_f32(n.c_str()));
    return Runtime::ControlFlow::Normal;
  }
  std::string mKind;
};

class TraceExtension : public Extensions::AExtension {
public:
  TraceExtension() : AExtension("Trace", "0") {}
  void initialize(Extensions::ExtensionNamespace *) override {}
  void provideMethods(Extensions::ExtensionMethods &m) override {
    m.push_back(new Emit("emit", _int32));
    m.push_back(new Fail());
    m.push_back(new Emit("emit16", _int16));
    m.push_back(new Emit("emit64", _int64));
    m.push_back(new Emit("emits", _string));
    m.push_back(new Emit("emitd", _double));
    m.push_back(new Emit("emitb", _bool));
    m.push_back(new Sym("symi", _int32));
    m.push_back(new Sym("symi16", _int16));
    m.push_back(new Sym("symi64", _int64));
    m.push_back(new Sym("symb", _bool));
    m.push_back(new Sym("symd", _double));
    m.push_back(new Sym("symf", _float));
  }
};

// ---------------------------------------------------------------- virtual machine
static VirtualMachine *vm = nullptr;
static Thread *thread = nullptr;
static std::string setupError;

inline void quiet() {
  Utils::Printer::Instance()->ActivatePrinter = false;
}

inline void newVM(bool extensions = false) {
  quiet();
  vm = new VirtualMachine();
  vm->settings().DoSkipExtensions = true;
  vm->settings().DoCollectErrors = false;
  vm->addExtension(new TraceExtension());
#ifdef WITH_EXTENSIONS
  if (extensions) {
    vm->addExtension(new Extensions::System::SystemExtension());
    vm->addExtension(new Extensions::LIBC::Extension());
  }
#endif
}

// Compiles the program; problems are kept and reported by the first call.
inline bool load(const std::string &src, bool extensions = false, const char *library = nullptr) {
  try {
    newVM(extensions);
    vm->init();
    if (library) vm->addLibraryFolder(library);
    vm->createScriptFromString(src);
    Controller::Instance().phase(Controller::Phase::Execution);
    thread = Controller::Instance().threads()->createThread();
    return true;
  } catch (std::exception &e) {
    setupError = e.what();
  } catch (...) {
    setupError = "unknown exception";
  }
  return false;
}

// true when the program is accepted by parser, generator and checks
inline bool accepts(const std::string &src) {
  try {
    newVM();
    vm->init();
    vm->createScriptFromString(src);
    return true;
  } catch (std::exception &) {
    return false;
  }
}

enum Outcome { Returned, Thrown, Exited, Native, Missing };
struct Result {
  Outcome out;
  std::string what; // type of a thrown object or text of a native exception
  Runtime::Object *exc = nullptr; // thrown object
  Runtime::Object obj;
  int64_t i() const { return obj.getValue().toInt(); }
  bool b() const { return obj.getValue().toBool(); }
  double d() const { return obj.getValue().toDouble(); }
  float f() const { return obj.getValue().toFloat(); }
  std::string s() const { return obj.getValue().toStdString(); }
};

inline Parameter arg(int32_t v) { return Parameter::CreateRuntime(_int32, Runtime::AtomicValue(v)); }
inline Parameter arg(int16_t v) { return Parameter::CreateRuntime(_int16, Runtime::AtomicValue(v)); }
inline Parameter arg(int64_t v) { return Parameter::CreateRuntime(_int64, Runtime::AtomicValue(v)); }
inline Parameter arg(bool v) { return Parameter::CreateRuntime(_bool, Runtime::AtomicValue(v)); }
inline Parameter arg(float v) { return Parameter::CreateRuntime(_float, Runtime::AtomicValue(v)); }
inline Parameter arg(double v) { return Parameter::CreateRuntime(_double, Runtime::AtomicValue(v)); }
inline Parameter arg(const std::string &v) { return Parameter::CreateRuntime(_string, Runtime::AtomicValue(v)); }

inline Common::Method *method(const std::string &name, const ParameterList &params) {
  MethodScope *scope = Controller::Instance().globalScope();
  std::string rest = name;
  for (;;) {
    auto p = rest.find('.');
    if (p == std::string::npos) break;
    scope = dynamic_cast<MethodScope *>(scope->resolve(rest.substr(0, p)));
    if (!scope) return nullptr;
    rest = rest.substr(p + 1);
  }
  return dynamic_cast<Common::Method *>(scope->resolveMethod(rest, params, true, Visibility::Public));
}

inline Result call(const std::string &name, const ParameterList &params = ParameterList()) {
  if (!setupError.empty()) sx_fail(("the program was not accepted: " + setupError).c_str());
  Result r;
  r.out = Returned;
  auto *m = method(name, params);
  if (!m) {
    r.out = Missing;
    sx_fail(("no method " + name).c_str());
  }
  try {
    auto cf = thread->execute(nullptr, m, params, &r.obj);
    if (cf == Runtime::ControlFlow::Throw) {
      r.out = Thrown;
      auto *d = r.exc = thread->exception().getData();
      r.what = d ? d->QualifiedTypename() : "";
    } else if (cf == Runtime::ControlFlow::ExitProgram)
      r.out = Exited;
  } catch (Runtime::ControlFlow::E &e) {
    r.out = e == Runtime::ControlFlow::Throw ? Thrown : Exited;
    if (r.out == Thrown) {
      auto *d = r.exc = thread->exception().getData();
      r.what = d ? d->QualifiedTypename() : "";
    }
  } catch (std::exception &e) {
    r.out = Native;
    r.what = e.what();
  }
  return r;
}

inline void expectTrace(const std::vector<int64_t> &want, const char *msg) {
  sx_assert(trace.size() == want.size(), msg);
  bool ok = true;
  for (size_t i = 0; i < want.size(); ++i) ok = ok & (trace[i].val == want[i]);
  sx_assert(ok, msg);
}

} // namespace H
