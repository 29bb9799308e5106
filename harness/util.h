// Small helpers shared by the drivers: line-based scripts in, one JSON record per line out.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <iostream>
#include <mutex>
#include <sstream>
#include <string>
#include <vector>
#include <atomic>
#include <unistd.h>
using namespace std;

inline string jstr(const string& s)
{
    string o = "\"";
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') {
            o += '\\';
            o += c;
        } else if (c < 32 || c > 126) {
            char b[8];
            snprintf(b, 8, "\\u%04x", c);
            o += b;
        } else {
            o += c;
        }
    }
    return o + "\"";
}
struct Rec {
    string s;
    Rec(const string& e)
    {
        s = "{\"e\":" + jstr(e);
    }
    Rec& i(const string& k, long long v)
    {
        s += ",\"" + k + "\":" + to_string(v);
        return *this;
    }
    Rec& b(const string& k, bool v)
    {
        s += ",\"" + k + "\":" + (v ? "true" : "false");
        return *this;
    }
    Rec& t(const string& k, const string& v)
    {
        s += ",\"" + k + "\":" + jstr(v);
        return *this;
    }
    Rec& raw(const string& k, const string& v)
    {
        s += ",\"" + k + "\":" + v;
        return *this;
    }
    template<class C> Rec& ints(const string& k, const C& c)
    {
        s += ",\"" + k + "\":[";
        bool f = true;
        for (auto x : c) {
            s += (f ? "" : ",") + to_string((long long) x);
            f = false;
        }
        s += "]";
        return *this;
    }
    template<class C> Rec& strs(const string& k, const C& c)
    {
        s += ",\"" + k + "\":[";
        bool f = true;
        for (auto& x : c) {
            s += (f ? "" : ",") + jstr(x);
            f = false;
        }
        s += "]";
        return *this;
    }
    void emit()
    {
        static mutex m;
        lock_guard<mutex> l(m);
        s += "}\n";
        size_t off = 0;
        while (off < s.size()) {
            ssize_t n = ::write(1, s.data() + off, s.size() - off);
            if (n <= 0) {
                _exit(3);
            }
            off += n;
        }
    }
};
inline vector<string> words(const string& line)
{
    istringstream is(line);
    vector<string> w;
    string x;
    while (is >> x) {
        w.push_back(x);
    }
    return w;
}
