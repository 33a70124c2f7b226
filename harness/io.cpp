// Binary and text form of tensors, singular values and edges: what is written is what is read back, objects following each other
// in one stream do not disturb each other, and a truncated dump never passes for a tensor.
#include "ref.hpp"
#include <sstream>
using Singular = TAT::Singular<Scalar, Sym, Name>;

template<typename F>
bool throws(F&& f) {
   try {
      f();
   } catch (const mc::Failure&) {
      throw;
   } catch (const std::exception&) {
      return true;
   }
   return false;
}
std::string plain(const std::string& s) { // the text without colours
   std::string r;
   for (size_t i = 0; i < s.size(); i++) {
      if (s[i] == '\x1B') {
         while (i < s.size() && s[i] != 'm') i++;
         continue;
      }
      r += s[i];
   }
   return r;
}
const std::vector<std::string>& odd_names() {
   // every character that a name may contain
   static const std::string all = [] {
      std::string r;
      for (char c = '!'; c <= '~'; c++)
         if (c != ',' && c != '[' && c != ']') r += c;
      return r;
   }();
   static std::vector<std::string> l = {"A", all, "x{y:z}", std::string(255, 'q'), std::string(256, 'r'), std::string(1000, 's')};
   return l;
}
// numbers with at most six digits, in every combination of zero, negative and fractional parts
const std::vector<double>& values() {
   static std::vector<double> v = {0, 1, -1, 2.5, -0.125, 1e-7, -3e+20, 12345};
   return v;
}
Ref choose_contents(const Names& names, const std::vector<Edge>& edges) {
   auto r = Ref::zeros(names, edges);
   int salt = mc::choose(r.data.empty() ? 1 : is_complex ? 9 : 4, "contents");
   int k = salt;
   for (auto& [key, v] : r.data) {
      v = make_scalar<Scalar>(values()[k % 8], values()[(k / 8 + k) % 8]);
      k += is_complex ? 7 : 3;
   }
   return r;
}
// write the objects with the given method, read them back
struct Method {
   bool text, colour;
};
template<typename A, typename B>
std::string write_all(const Method& m, const A& a, const B& b) {
   std::ostringstream out;
   if (m.text) out << a << '?' << b << '!';
   else {
      char c = '?', d = '!';
      using TAT::operator<;
      out < a;
      out < c;
      out < b;
      out < d;
   }
   return m.text && !m.colour ? plain(out.str()) : out.str();
}
template<typename A, typename B>
void read_all(const Method& m, const std::string& s, A& a, B& b) {
   std::istringstream in(s);
   char c = 0, d = 0;
   if (m.text) in >> a >> c >> b >> d;
   else {
      using TAT::operator>;
      in > a;
      in > c;
      in > b;
      in > d;
   }
   mc::check(bool(in), "reading what was written fails");
   mc::check(c == '?' && d == '!', "reading an object takes more or less than its own text from the stream");
   in.get();
   mc::check(in.eof(), "reading leaves something behind");
}
Method choose_method() {
   int m = mc::choose(3, "binary, text or coloured text");
   return {m > 0, m == 2};
}
Tensor target(int kind, Tensor& bystander, Ref& bystander_ref) {
   bystander_ref = make_ref(first_names(2), {shapes(0)[0], dual(shapes(0)[0])}, 3);
   bystander = to_tensor(bystander_ref);
   switch (kind) {
      case 0: return Tensor();
      case 1: return bystander; // shares storage
      default: return to_tensor(bystander_ref);
   }
}
void tensor_case() {
   int rank = mc::choose(5, "rank");
   std::vector<Edge> edges;
   Names names;
   for (int i = 0; i < rank; i++) {
      int n = int(shapes(rank <= 2 ? 2 : 0).size());
      int c = mc::choose(n + (i == 0), "edge");
      if (c == n) edges.push_back(is_no ? mk({{Sym(), 0}}) : mk({}));
      else edges.push_back(shapes(2)[c]);
      if (is_fermi) set_arrow(edges.back(), mc::flip("arrow"));
   }
   int special = rank == 0 ? 0 : mc::choose(int(odd_names().size()), "name");
   for (int i = 0; i < rank; i++) names.push_back(i == rank - 1 ? Name(odd_names()[special]) : Name(letters()[i + 1].c_str()));
   auto m = choose_method();
   int kind = mc::choose(3, "target");
   auto r = choose_contents(names, edges);
   mc::commit();
   if (mc::replaying()) mc::note("tensor " + show(names, edges));
   auto t = to_tensor(r);
   auto second_ref = make_ref(first_names(2), {shapes(1)[3], dual(shapes(1)[3])}, 5);
   auto second = to_tensor(second_ref);
   auto s = write_all(m, t, second);
   if (mc::replaying() && m.text) mc::note("text " + plain(s));
   expect(t, r, "written tensor");
   Tensor bystander;
   Ref bystander_ref;
   auto a = target(kind, bystander, bystander_ref);
   Tensor b = a;
   read_all(m, s, a, b);
   expect(a, r, "tensor read back", m.text ? 1e-13 : 0);
   expect(b, second_ref, "tensor read back after another one");
   expect(bystander, bystander_ref, "tensor that shared storage with the target");
   if (!m.text) {
      auto d = t.dump();
      Tensor c = target(kind, bystander, bystander_ref);
      mc::check(&c.load(d) == &c, "load does not return the tensor");
      expect(c, r, "load of dump");
      expect(Tensor().load(d), r, "load of dump into a temporary");
      expect(bystander, bystander_ref, "tensor that shared storage with the target of load");
   } else if (m.colour) {
      std::ostringstream o;
      o << t;
      mc::check(t.show() == o.str(), "show() is not the text");
   }
   mc::state(hash_tensor(t));
   mc::outcome(mc::mix(hash_tensor(a), s.size()));
}
// every truncation of a dump is refused
void truncation_case() {
   int rank = mc::choose(3, "rank");
   std::vector<Edge> edges;
   for (int i = 0; i < rank; i++) edges.push_back(choose_edge(rank == 1 ? 2 : 0, "edge", false));
   auto r = make_ref(first_names(rank), edges, 4);
   auto t = to_tensor(r);
   auto d = t.dump();
   int length = mc::choose(int(d.size()), "length");
   mc::commit();
   if (mc::replaying()) mc::note("dump of " + show(r.names, edges) + " of " + std::to_string(d.size()) + " bytes cut to " + std::to_string(length));
   auto cut = d.substr(0, length);
   Tensor bystander;
   Ref bystander_ref;
   auto a = target(1, bystander, bystander_ref);
   mc::check(throws([&] { a.load(cut); }), "load accepts a truncated dump");
   expect(bystander, bystander_ref, "tensor that shared storage with the target");
   Tensor c;
   bool refused;
   std::istringstream in(cut);
   using TAT::operator>;
   if (!throws([&] { in > c; })) mc::check(!in, "reading truncated data leaves a good stream");
   mc::state(hash_tensor(t));
   mc::outcome(mc::mix(length, d.size()));
}
void singular_case() {
   int sectors = is_no ? 1 : mc::choose(4, "sectors");
   Singular s;
   std::vector<Sym> charges = {charge(0, 0), charge(1, 1), charge(-1, 0), charge(-2, 1)};
   std::map<Sym, std::vector<Real>> expected;
   for (int i = 0; i < sectors; i++) {
      int n = mc::choose(4, "dimension");
      int k = mc::choose(4, "values");
      auto& e = expected[charges[i]];
      e.clear();
      for (int j = 0; j < n; j++) e.push_back(Real(values()[(k * 3 + j * 2) % 8]));
   }
   auto m = choose_method();
   int kind = mc::choose(2, "target");
   mc::commit();
   for (auto& [k, v] : expected) {
      auto& x = s.value[k];
      x.clear();
      for (auto& y : v) x.push_back(y);
   }
   auto same = [&](const Singular& x, const char* what) {
      mc::check(Size(x.value.size()) == expected.size(), [&] { return std::string(what) + ": number of sectors"; });
      for (auto& [k, v] : expected) {
         auto f = x.value.find(k);
         mc::check(f != x.value.end() && f->second.size() == v.size(), [&] { return std::string(what) + ": sector " + show(k); });
         for (size_t i = 0; i < v.size(); i++)
            mc::check(same_number(Real(f->second[i]), v[i], m.text ? 1e-13 : 0), [&] { return std::string(what) + ": value"; });
      }
   };
   same(s, "prepared singular");
   Singular a, b;
   if (kind) {
      a.value[charge(3, 1)].push_back(7);
      b = a;
   } else if (!is_no) {
      a.value.clear();
   }
   auto text = write_all(m, s, s);
   if (mc::replaying() && m.text) mc::note("text " + plain(text));
   read_all(m, text, a, b);
   same(a, "singular read back");
   same(b, "singular read back after another one");
   if (!m.text) {
      Singular c;
      c.load(s.dump());
      same(c, "load of dump");
      same(s.copy(), "copy");
   } else if (m.colour) {
      std::ostringstream o;
      o << s;
      mc::check(s.show() == o.str(), "show() is not the text");
   }
   mc::state(mc::hash_bytes(1, text.data(), text.size()));
   mc::outcome(text.size());
}
int main(int argc, char** argv) {
   return mc::main(argc, argv, [] {
      switch (mc::choose(3, "kind")) {
         case 0: return tensor_case();
         case 1: return truncation_case();
         default: return singular_case();
      }
   });
}
