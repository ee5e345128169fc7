// osmjs as an addon of node: require(this)(arg...) runs osmjs with these arguments.
#include <v8.h>
#undef v8
#include <node/node.h>
#define v8 v8old
#include "osmjs.cpp"
#undef v8
#include <malloc.h>
#include <unistd.h>
static void run(const v8::FunctionCallbackInfo<v8::Value>& info) {
    std::vector<std::string> a(1, "osmjs"); std::vector<char*> p;
    for (int i = 0; i < info.Length(); ++i) { v8::String::Utf8Value s(info.GetIsolate(), info[i]); a.push_back(std::string(*s, s.length())); }
    for (size_t i = 0; i < a.size(); ++i) p.push_back(const_cast<char*>(a[i].c_str()));
    p.push_back(0);
    std::string result = "ok";
    try { main(a.size(), p.data()); } catch (std::exception& e) { result = std::string("exception ") + e.what(); }
    std::cout.flush();
    info.GetIsolate()->LowMemoryNotification();     // collects what the script no longer uses
    info.GetIsolate()->LowMemoryNotification();
    fprintf(stderr, "\nHEAP %zu\n", mallinfo2().uordblks);      // memory in use outside of the heap of V8
    fprintf(stderr, "END %s\n", result.c_str()); fflush(stderr);
    _exit(0);       // the isolate would be gone when static objects of the addon are destroyed
}
extern "C" __attribute__((visibility("default"))) void node_register_module_v127(v8::Local<v8::Object>, v8::Local<v8::Value> module, v8::Local<v8::Context> context, void*) {
    module.As<v8::Object>()->Set(context, v8::String::NewFromUtf8Literal(v8::Isolate::GetCurrent(), "exports"), v8::FunctionTemplate::New(v8::Isolate::GetCurrent(), run)->GetFunction(context).ToLocalChecked()).Check();
}
