// The interface V8 had in 2012, as far as osmium uses it, on top of the V8 in the installed node program.
#ifndef VP_V8OLD_H
#define VP_V8OLD_H
#include "/usr/include/node/v8.h"
#include <cstring>
#include <memory>
#include <string>
#include <vector>

namespace v8old {

namespace real = ::v8;
inline real::Isolate* isolate() { return real::Isolate::GetCurrent(); }
inline real::Local<real::Context> context() { return isolate()->GetCurrentContext(); }

// Objects of V8 are represented by classes which hold the real handle.  R is the class of the real V8.
template <class T> class Persistent;
template <class T> class Handle {
protected:
    T m_object;
public:
    typedef typename T::R R;
    Handle() {}
    Handle(const Handle&) = default;
    Handle& operator=(const Handle&) = default;
    explicit Handle(real::Local<R> l) : m_object(l) {}
    template <class S> Handle(const Handle<S>& o) : m_object(real::Local<R>(o.real_handle())) {}
    template <class S> Handle(const Persistent<S>& o);
    template <class S> static Handle Cast(Handle<S> o) { return Handle(o.IsEmpty() ? real::Local<R>() : o.real_handle().template As<R>()); }
    bool IsEmpty() const { return m_object.h.IsEmpty(); }
    real::Local<R> real_handle() const { return m_object.h; }
    T* operator->() const { return const_cast<T*>(&m_object); }
    T* operator*() const { return const_cast<T*>(&m_object); }
};
template <class T> class Local : public Handle<T> {
public:
    typedef typename T::R R;
    Local() {}
    Local(const Local&) = default;
    Local& operator=(const Local&) = default;
    explicit Local(real::Local<R> l) : Handle<T>(l) {}
    template <class S> Local(const Local<S>& o) : Handle<T>(o) {}
    template <class S> static Local New(const Handle<S>& o) { return Local(real::Local<R>::New(isolate(), o.real_handle())); }
    template <class S> static Local Cast(Local<S> o) { return Local(o.IsEmpty() ? real::Local<R>() : o.real_handle().template As<R>()); }
};

struct Value; struct Object; struct String; struct Boolean; struct Integer;
typedef void (*WeakReferenceCallback)(Persistent<Value>, void*);

struct WeakData { void* parameter; WeakReferenceCallback callback; std::shared_ptr<void> keep; void (*reset)(void*); };

template <class T> class Persistent {
public:
    typedef typename T::R R;
    typedef real::Global<R> G;
    std::shared_ptr<G> m_global;
    Persistent() {}
    template <class S> static Persistent New(const Handle<S>& o) { Persistent p; p.m_global = std::make_shared<G>(isolate(), real::Local<R>(o.real_handle())); return p; }
    template <class S> static Persistent New(const Persistent<S>& o) { Persistent p; p.m_global = std::make_shared<G>(isolate(), real::Local<R>(o.local())); return p; }
    bool IsEmpty() const { return !m_global || m_global->IsEmpty(); }
    real::Local<R> local() const { return m_global ? m_global->Get(isolate()) : real::Local<R>(); }
    void Dispose() { if (m_global) m_global->Reset(); }
    void MakeWeak(void* parameter, WeakReferenceCallback cb);
    struct Arrow { T t; T* operator->() { return &t; } };
    Arrow operator->() const { return Arrow{T(local())}; }
};
template <class T> template <class S> Handle<T>::Handle(const Persistent<S>& o) : m_object(real::Local<R>(o.local())) {}

struct Data { typedef real::Data R; real::Local<R> h; Data() {} Data(real::Local<R> l) : h(l) {} };
struct Value {
    typedef real::Value R; real::Local<R> h;
    Value() {} Value(real::Local<R> l) : h(l) {}
    Local<String> ToString() const; Local<Object> ToObject() const; Local<Boolean> ToBoolean() const;
    bool IsFunction() const { return h->IsFunction(); }
    bool IsUndefined() const { return h->IsUndefined(); }
    bool IsNull() const { return h->IsNull(); }
    int32_t Int32Value() const { return h->Int32Value(context()).FromMaybe(0); }
};
struct Boolean { typedef real::Boolean R; real::Local<R> h; Boolean() {} Boolean(real::Local<R> l) : h(l) {}
    bool Value() const { return h->Value(); }
    static Handle<Boolean> New(bool b) { return Handle<Boolean>(real::Boolean::New(isolate(), b)); } };
struct Number { typedef real::Number R; real::Local<R> h; Number() {} Number(real::Local<R> l) : h(l) {}
    static Local<Number> New(double d) { return Local<Number>(real::Number::New(isolate(), d)); } };
struct Integer { typedef real::Integer R; real::Local<R> h; Integer() {} Integer(real::Local<R> l) : h(l) {}
    static Local<Integer> New(int32_t d) { return Local<Integer>(real::Integer::New(isolate(), d)); } };
struct External { typedef real::External R; real::Local<R> h; External() {} External(real::Local<R> l) : h(l) {}
    static Local<External> New(void* p) { return Local<External>(real::External::New(isolate(), p)); }
    void* Value() const { return h->Value(); } };
struct String {
    typedef real::String R; real::Local<R> h;
    String() {} String(real::Local<R> l) : h(l) {}
    static Local<String> New(const char* s, int length = -1) { return Local<String>(real::String::NewFromUtf8(isolate(), s, real::NewStringType::kNormal, length).ToLocalChecked()); }
    static Local<String> New(const uint16_t* s, int length = -1) { return Local<String>(real::String::NewFromTwoByte(isolate(), s, real::NewStringType::kNormal, length).ToLocalChecked()); }
    static Local<String> New(const char16_t* s, int length = -1) { return New(reinterpret_cast<const uint16_t*>(s), length); }
    static Local<String> NewSymbol(const char* s, int length = -1) { return Local<String>(real::String::NewFromUtf8(isolate(), s, real::NewStringType::kInternalized, length).ToLocalChecked()); }
    int Length() const { return h->Length(); }
    int Write(uint16_t* buffer, int start = 0, int length = -1) const { return h->Write(isolate(), buffer, start, length); }
    class Utf8Value {
        real::String::Utf8Value v;
    public:
        template <class H> explicit Utf8Value(const H& o) : v(isolate(), o.real_handle()) {}
        char* operator*() { return *v; } const char* operator*() const { return *v; }
        int length() const { return v.length(); }
    };
    typedef Utf8Value AsciiValue;
};
struct Object {
    typedef real::Object R; real::Local<R> h;
    Object() {} Object(real::Local<R> l) : h(l) {}
    template <class K> Local<v8old::Value> Get(const Handle<K>& k) const { return Local<v8old::Value>(h->Get(context(), k.real_handle()).ToLocalChecked()); }
    template <class K, class V> bool Set(const Handle<K>& k, const Handle<V>& v) { return h->Set(context(), k.real_handle(), v.real_handle()).FromMaybe(false); }
    template <class V> bool Set(uint32_t k, const Handle<V>& v) { return h->Set(context(), k, v.real_handle()).FromMaybe(false); }
    Local<v8old::Value> GetInternalField(int i) const { return Local<v8old::Value>(h->GetInternalField(i).As<real::Value>()); }
    template <class V> void SetInternalField(int i, const Handle<V>& v) { h->SetInternalField(i, v.real_handle()); }
    bool HasRealNamedProperty(const Handle<String>& k) const { return h->HasRealNamedProperty(context(), k.real_handle()).FromMaybe(false); }
    Local<v8old::Value> GetRealNamedProperty(const Handle<String>& k) const { real::Local<real::Value> v; return h->GetRealNamedProperty(context(), k.real_handle()).ToLocal(&v) ? Local<v8old::Value>(v) : Local<v8old::Value>(); }
};
struct Array : public Object {
    typedef real::Array R; real::Local<R> h;
    Array() {} Array(real::Local<R> l) : Object(l), h(l) {}
    static Local<Array> New(int length = 0) { return Local<Array>(real::Array::New(isolate(), length)); }
};
struct Function : public Object {
    typedef real::Function R; real::Local<R> h;
    Function() {} Function(real::Local<R> l) : Object(l.IsEmpty() ? real::Local<real::Object>() : real::Local<real::Object>(l)), h(l) {}
    template <class O> Local<v8old::Value> Call(const Handle<O>& receiver, int, void*) { real::Local<real::Value> v; return h->Call(context(), receiver.real_handle(), 0, 0).ToLocal(&v) ? Local<v8old::Value>(v) : Local<v8old::Value>(); }
};
inline Local<String> Value::ToString() const { return Local<String>(h->ToString(context()).ToLocalChecked()); }
inline Local<Object> Value::ToObject() const { return Local<Object>(h->ToObject(context()).ToLocalChecked()); }
inline Local<Boolean> Value::ToBoolean() const { return Local<Boolean>(h->ToBoolean(isolate())); }
inline Handle<Value> Undefined() { return Handle<Value>(real::Local<real::Value>(real::Undefined(isolate()))); }

template <class T> void Persistent<T>::MakeWeak(void* parameter, WeakReferenceCallback cb) {
    struct W { std::shared_ptr<G> g; void* p; WeakReferenceCallback cb; };
    W* w = new W{m_global, parameter, cb};
    m_global->SetWeak(w, [](const real::WeakCallbackInfo<W>& i) {
        i.GetParameter()->g->Reset();
        i.SetSecondPassCallback([](const real::WeakCallbackInfo<W>& i) {
            W* w = i.GetParameter();
            Persistent<v8old::Value> none;
            w->cb(none, w->p);
            delete w;
        });
    }, real::WeakCallbackType::kParameter);
}

class HandleScope {
    real::EscapableHandleScope s;
public:
    HandleScope() : s(isolate()) {}
    template <class T> Local<T> Close(Handle<T> h) { return Local<T>(s.Escape(h.real_handle())); }
};

class Arguments {
    const real::FunctionCallbackInfo<real::Value>& i;
public:
    explicit Arguments(const real::FunctionCallbackInfo<real::Value>& i) : i(i) {}
    int Length() const { return i.Length(); }
    Local<Value> operator[](int n) const { return Local<Value>(i[n]); }
    Local<Object> Holder() const { return Local<Object>(i.This()); }
};
class AccessorInfo {
    real::Local<real::Object> holder;
public:
    explicit AccessorInfo(real::Local<real::Object> h) : holder(h) {}
    Local<Object> Holder() const { return Local<Object>(holder); }
};
typedef Handle<Value> (*InvocationCallback)(const Arguments&);
typedef Handle<Value> (*AccessorGetter)(Local<String>, const AccessorInfo&);
typedef Handle<Value> (*NamedPropertyGetter)(Local<String>, const AccessorInfo&);
typedef Handle<Value> (*IndexedPropertyGetter)(uint32_t, const AccessorInfo&);
typedef Handle<Array> (*Enumerator)(const AccessorInfo&);

struct FunctionTemplate {
    typedef real::FunctionTemplate R; real::Local<R> h;
    FunctionTemplate() {} FunctionTemplate(real::Local<R> l) : h(l) {}
    static Local<FunctionTemplate> New(InvocationCallback f) {
        return Local<FunctionTemplate>(real::FunctionTemplate::New(isolate(), [](const real::FunctionCallbackInfo<real::Value>& i) {
            InvocationCallback f = reinterpret_cast<InvocationCallback>(i.Data().As<real::External>()->Value());
            Handle<Value> v = f(Arguments(i));
            if (!v.IsEmpty()) i.GetReturnValue().Set(v.real_handle());
        }, real::External::New(isolate(), reinterpret_cast<void*>(f))));
    }
};
struct ObjectTemplate {
    typedef real::ObjectTemplate R; real::Local<R> h;
    ObjectTemplate() {} ObjectTemplate(real::Local<R> l) : h(l) {}
    static Local<ObjectTemplate> New() { return Local<ObjectTemplate>(real::ObjectTemplate::New(isolate())); }
    Local<Object> NewInstance() { return Local<Object>(h->NewInstance(context()).ToLocalChecked()); }
    void SetInternalFieldCount(int n) { h->SetInternalFieldCount(n); }
    void Set(const Handle<String>& k, const Handle<FunctionTemplate>& f) { h->Set(k.real_handle(), f.real_handle()); }
    void Set(const char* k, const Handle<FunctionTemplate>& f) { h->Set(isolate(), k, f.real_handle()); }
    void SetAccessor(const Handle<String>& k, AccessorGetter f) {
        h->SetAccessor(k.real_handle().As<real::Name>(), [](real::Local<real::Name> n, const real::PropertyCallbackInfo<real::Value>& i) {
            AccessorGetter f = reinterpret_cast<AccessorGetter>(i.Data().As<real::External>()->Value());
            Handle<Value> v = f(Local<String>(n.As<real::String>()), AccessorInfo(i.Holder()));
            if (!v.IsEmpty()) i.GetReturnValue().Set(v.real_handle());
        }, (real::AccessorNameSetterCallback)0, real::External::New(isolate(), reinterpret_cast<void*>(f)));
    }
    struct Pair { void* getter; Enumerator e; };
    void SetNamedPropertyHandler(NamedPropertyGetter g, int, int, int, Enumerator e) {
        Pair* p = new Pair{reinterpret_cast<void*>(g), e};
        h->SetHandler(real::NamedPropertyHandlerConfiguration(
            [](real::Local<real::Name> n, const real::PropertyCallbackInfo<real::Value>& i) -> real::Intercepted {
                Pair* p = static_cast<Pair*>(i.Data().As<real::External>()->Value());
                Handle<Value> v = reinterpret_cast<NamedPropertyGetter>(p->getter)(Local<String>(n.As<real::String>()), AccessorInfo(i.Holder()));
                if (v.IsEmpty()) return real::Intercepted::kNo;
                i.GetReturnValue().Set(v.real_handle()); return real::Intercepted::kYes;
            }, 0, 0, 0, enumerator, real::External::New(isolate(), p), real::PropertyHandlerFlags::kOnlyInterceptStrings));
    }
    void SetIndexedPropertyHandler(IndexedPropertyGetter g, int = 0, int = 0, int = 0, Enumerator e = 0) {
        Pair* p = new Pair{reinterpret_cast<void*>(g), e};
        h->SetHandler(real::IndexedPropertyHandlerConfiguration(
            [](uint32_t n, const real::PropertyCallbackInfo<real::Value>& i) -> real::Intercepted {
                Pair* p = static_cast<Pair*>(i.Data().As<real::External>()->Value());
                Handle<Value> v = reinterpret_cast<IndexedPropertyGetter>(p->getter)(n, AccessorInfo(i.Holder()));
                if (v.IsEmpty()) return real::Intercepted::kNo;
                i.GetReturnValue().Set(v.real_handle()); return real::Intercepted::kYes;
            }, 0, 0, 0, e ? enumerator : 0, real::External::New(isolate(), p)));
    }
    static void enumerator(const real::PropertyCallbackInfo<real::Array>& i) {
        Pair* p = static_cast<Pair*>(i.Data().As<real::External>()->Value());
        Handle<Array> a = p->e(AccessorInfo(i.Holder()));
        if (!a.IsEmpty()) i.GetReturnValue().Set(a.real_handle());
    }
};

struct Script {
    typedef real::Script R; real::Local<R> h;
    Script() {} Script(real::Local<R> l) : h(l) {}
    static Local<Script> Compile(const Handle<String>& source, const Handle<String>& name = Handle<String>()) {
        real::Local<real::Script> s; bool ok;
        if (name.IsEmpty()) ok = real::Script::Compile(context(), source.real_handle()).ToLocal(&s);
        else { real::ScriptOrigin o(isolate(), name.real_handle()); ok = real::Script::Compile(context(), source.real_handle(), &o).ToLocal(&s); }
        return ok ? Local<Script>(s) : Local<Script>();
    }
    Local<Value> Run() { real::Local<real::Value> v; return h->Run(context()).ToLocal(&v) ? Local<Value>(v) : Local<Value>(); }
};
struct Message {
    typedef real::Message R; real::Local<R> h;
    Message() {} Message(real::Local<R> l) : h(l) {}
    Handle<Value> GetScriptResourceName() const { return Handle<Value>(h->GetScriptResourceName()); }
    Local<String> GetSourceLine() const { real::Local<real::String> s; return h->GetSourceLine(context()).ToLocal(&s) ? Local<String>(s) : String::New(""); }
    int GetLineNumber() const { return h->GetLineNumber(context()).FromMaybe(0); }
    int GetStartColumn() const { return h->GetStartColumn(); }
    int GetEndColumn() const { return h->GetEndColumn(); }
};
class TryCatch {
    real::TryCatch t;
public:
    TryCatch() : t(isolate()) {}
    Local<Value> Exception() const { return Local<Value>(t.Exception()); }
    Local<v8old::Message> Message() const { return Local<v8old::Message>(t.Message()); }
};
struct Context {
    typedef real::Context R; real::Local<R> h;
    Context() {} Context(real::Local<R> l) : h(l) {}
    static Local<Context> New(void*, const Handle<ObjectTemplate>& global) { return Local<Context>(real::Context::New(isolate(), 0, global.real_handle())); }
    Local<Object> Global() { return Local<Object>(h->Global()); }
    class Scope {
        real::Context::Scope s;
    public:
        template <class H> explicit Scope(const H& c) : s(Handle<Context>(c).real_handle()) {}
    };
};
struct V8 { static bool IdleNotification() { isolate()->LowMemoryNotification(); return true; } };

} // namespace v8old
#define v8 v8old
#endif
