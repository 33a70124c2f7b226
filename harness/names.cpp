// Interned names: after any history of naming, saving and loading the table of names and starting afresh, a name stands for
// exactly its text, equal texts give equal names and different texts different ones, and a saved tensor comes back with the
// texts of its names when the table saved with it is loaded first.
#include "mc.hpp"
#include <TAT/TAT.hpp>
using TAT::FastName;
using Tensor = TAT::Tensor<double, TAT::Z2Symmetry, FastName>;

static TAT::fast_name_dataset_t* initial;
static const std::string texts[] = {"", "a", "b", std::string(300, 'x'), ",SVD_U", "B"};

struct Saved {
   std::string table, tensor;
   std::vector<std::string> model;
   std::vector<std::string> names;
};
void body() {
   TAT::fast_name_dataset = *initial;
   std::vector<std::string> model = initial->id_to_name; // id -> text
   std::vector<std::pair<FastName, std::string>> handles;
   std::vector<Saved> saved;
   auto verify = [&] {
      auto& d = TAT::fast_name_dataset;
      mc::check(d.id_to_name == model, "the table of texts is not what was entered");
      for (auto& [n, t] : handles) {
         mc::check(static_cast<const std::string&>(n) == t, "a name stands for another text");
         std::ostringstream o;
         o << n;
         mc::check(o.str() == t, "a name prints another text");
         for (auto& [m, u] : handles) {
            mc::check((n == m) == (t == u) && (n != m) == (t != u), "names are equal but their texts are not, or the other way round");
            mc::check(int(n < m) + int(m < n) + int(n == m) == 1 && (n <= m) == !(m < n) && (n > m) == (m < n) && (n >= m) == !(n < m),
                      "the order of names is no order");
         }
      }
   };
   int depth = mc::thorough() ? 7 : 6;
   for (int step = 0; step < depth; step++) {
      if (step == 2) mc::commit();
      int op = mc::choose(5, "step");
      if (op <= 1) {
         auto& t = texts[mc::choose(6, "text")];
         FastName n = op == 0 ? FastName(t) : FastName(t.c_str());
         auto f = std::find(model.begin(), model.end(), t);
         if (f == model.end()) {
            model.push_back(t);
            f = model.end() - 1;
         }
         mc::check(n.id == f - model.begin(), "a text is entered again, or under a used number");
         FastName m(n.id);
         mc::check(m == n && static_cast<const std::string&>(m) == t, "a name made from a number has another text");
         handles.push_back({n, t});
      } else if (op == 2) {
         Saved s;
         s.table = TAT::dump_fast_name_dataset();
         s.model = model;
         std::vector<FastName> names;
         for (auto& [n, t] : handles)
            if (std::find(names.begin(), names.end(), n) == names.end()) {
               names.push_back(n);
               s.names.push_back(t);
            }
         s.tensor = Tensor(names, std::vector<TAT::Edge<TAT::Z2Symmetry>>(names.size(), {{false, 1}, {true, 2}})).set([] { return 1.5; }).dump();
         // the dump itself enters nothing
         saved.push_back(std::move(s));
      } else if (op == 3) {
         if (saved.empty()) mc::skip();
         auto& s = saved[mc::choose(int(saved.size()), "saved table")];
         TAT::load_fast_name_dataset(s.table);
         model = s.model;
         // names made since with numbers beyond the table are gone, the others stay only if the table agrees
         std::vector<std::pair<FastName, std::string>> keep;
         for (auto& h : handles)
            if (size_t(h.first.id) < model.size() && model[h.first.id] == h.second) keep.push_back(h);
         handles = keep;
         Tensor t;
         t.load(s.tensor);
         mc::check(t.names.size() == s.names.size(), "a saved tensor has another number of names");
         for (size_t i = 0; i < s.names.size(); i++) {
            mc::check(static_cast<const std::string&>(t.names[i]) == s.names[i], "a saved tensor has other names");
            mc::check(t.names[i] == FastName(s.names[i]), "a name of a saved tensor differs from the name of the same text");
            mc::check(t.name_to_index.at(FastName(s.names[i])) == i, "a saved tensor does not find its edge by name");
         }
      } else {
         // another process
         TAT::fast_name_dataset = *initial;
         model = initial->id_to_name;
         handles.clear();
      }
      verify();
      mc::step();
      uint64_t h = mc::mix(saved.size(), handles.size());
      for (auto& t : model) h = mc::mix(h, std::hash<std::string>()(t));
      mc::state(h);
   }
   // names used by the library itself are all different
   std::vector<FastName> internal = {TAT::InternalName<FastName>::Contract_0, TAT::InternalName<FastName>::Contract_1, TAT::InternalName<FastName>::Contract_2,
                                     TAT::InternalName<FastName>::SVD_U, TAT::InternalName<FastName>::SVD_V, TAT::InternalName<FastName>::QR_1,
                                     TAT::InternalName<FastName>::QR_2, TAT::InternalName<FastName>::Trace_1, TAT::InternalName<FastName>::Trace_2,
                                     TAT::InternalName<FastName>::Trace_3, TAT::InternalName<FastName>::No_Old_Name, TAT::InternalName<FastName>::No_New_Name,
                                     TAT::InternalName<FastName>::Exp_1, TAT::InternalName<FastName>::Exp_2};
   for (size_t i = 0; i < internal.size(); i++)
      for (size_t j = 0; j < i; j++) mc::check(internal[i] != internal[j], "two internal names are the same");
   for (auto& n : internal) mc::check(static_cast<const std::string&>(n).substr(0, 1) == ",", "an internal name can be written by a user");
}
int main(int argc, char** argv) {
   initial = new TAT::fast_name_dataset_t(TAT::fast_name_dataset);
   return mc::main(argc, argv, body);
}
