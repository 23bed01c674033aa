// The Python configuration: the scripts' classes over the real C++ module, and what the C++ side reads from them.
// SRCS: SEFramework/src/lib/FITS/FitsFile.cpp SEImplementation/src/lib/PythonConfig/PyFitsFile.cpp SEImplementation/src/lib/PythonConfig/PyAperture.cpp SEImplementation/src/lib/PythonConfig/PyId.cpp SEImplementation/src/lib/PythonConfig/PyMeasurementImage.cpp SEImplementation/src/lib/PythonConfig/PyOutputWrapper.cpp SEImplementation/src/lib/PythonConfig/PythonInterpreter.cpp SEImplementation/src/lib/PythonConfig/PythonModule.cpp
// FLAGS: @python -DVDIR=@V
// LIBS: -lcfitsio -lboost_regex -lboost_filesystem -lboost_system -lboost_locale -lboost_python312 -lpython3.12 -lpthread
#include <boost/python.hpp>
#include "pbt.h"
#include <Pyston/GIL.h>
#include "SEImplementation/PythonConfig/PythonInterpreter.h"
using namespace pbt;
using namespace SourceXtractor;
namespace py = boost::python;
#define STR2(x) #x
#define STR(x) STR2(x)
extern "C" PyObject* PyInit__SourceXtractorPy();

// What the checks, written in Python, see of the case
static Case* cur = nullptr;
static bool discarded = false;
static std::vector<std::pair<std::string, std::string>> lines;
static long draw(long n) { try { return long(cur->s.draw(uint64_t(n))); } catch (const Discard&) { discarded = true; throw std::runtime_error("discard"); } }
static void label(const std::string& s) { cur->label(s); }
static void note(const std::string& s) { cur->note() << s << "\n"; }
static void nontrivial(bool b) { cur->nontrivial(b); }
static void run_file(const std::string& name, const py::list& argv) {
  std::vector<std::string> a; for (int i = 0; i < py::len(argv); ++i) a.push_back(py::extract<std::string>(argv[i]));
  PythonInterpreter::getSingleton().runFile(name, a);
}
static void setup_context() { PythonInterpreter::getSingleton().setupContext(); }
static py::list ints(const std::vector<int>& v) { py::list l; for (int i : v) l.append(i); return l; }
template <typename M> static py::dict objects(const M& m) { py::dict d; for (auto& p : m) d[p.first] = p.second; return d; }
// Everything the C++ side reads from the configuration
static py::dict getters() {
  auto& p = PythonInterpreter::getSingleton(); py::dict d, im, ap, ac, fm; py::list mc;
  for (auto& i : p.getMeasurementImages()) { auto& m = i.second; im[i.first] = py::make_tuple(m.id, m.file, m.psf_file, m.weight_file, m.gain, m.saturation, m.flux_scale, m.weight_type, m.weight_absolute, m.weight_scaling, py::make_tuple(m.has_weight_threshold, m.weight_threshold, m.is_background_constant, m.constant_background_value, m.image_hdu, m.psf_hdu, m.weight_hdu, m.is_data_cube, m.image_layer, m.weight_layer, m.psf_renormalize)); }
  for (auto& i : p.getApertures()) { py::list l; for (double a : i.second.apertures) l.append(a); ap[i.first] = py::make_tuple(i.second.id, l); }
  for (auto& i : p.getModelFittingOutputColumns()) mc.append(py::make_tuple(i.first, ints(i.second)));
  for (auto& i : p.getApertureOutputColumns()) ac[i.first] = ints(i.second);
  for (auto& i : p.getFrameModelsMap()) fm[i.first] = ints(i.second);
  d["images"] = im; d["apertures"] = ap; d["model_columns"] = mc; d["aperture_columns"] = ac; d["frames"] = fm;
  d["constant"] = objects(p.getConstantParameters()); d["free"] = objects(p.getFreeParameters()); d["dependent"] = objects(p.getDependentParameters()); d["priors"] = objects(p.getPriors());
  d["constant_models"] = objects(p.getConstantModels()); d["point"] = objects(p.getPointSourceModels()); d["sersic"] = objects(p.getSersicModels()); d["exponential"] = objects(p.getExponentialModels());
  d["devaucouleurs"] = objects(p.getDeVaucouleursModels()); d["onnx"] = objects(p.getOnnxModels()); d["settings"] = objects(p.getModelFittingParams());
  return d;
}
static py::list log_lines() { py::list l; for (auto& x : lines) l.append(py::make_tuple(x.first, x.second)); lines.clear(); return l; }
BOOST_PYTHON_MODULE(_pbt) {
  py::def("draw", draw); py::def("label", label); py::def("note", note); py::def("nontrivial", nontrivial); py::def("run_file", run_file); py::def("setup_context", setup_context); py::def("getters", getters); py::def("log_lines", log_lines);
}
static py::object* checks = nullptr;
static std::string pyError() {
  PyObject *t, *v, *b; PyErr_Fetch(&t, &v, &b); PyErr_NormalizeException(&t, &v, &b); py::handle<> ht(t), hv(py::allow_null(v)), hb(py::allow_null(b));
  try { return py::extract<std::string>(checks->attr("describe")(ht, hv, hb)); } catch (const py::error_already_set&) { PyErr_Clear(); return "a Python error without description"; }
}
static void start() {
  setenv("PYTHONHASHSEED", "0", 1); setenv("PYTHONDONTWRITEBYTECODE", "1", 1);
  PyImport_AppendInittab("_SourceXtractorPy", PyInit__SourceXtractorPy); PyImport_AppendInittab("_pbt", PyInit__pbt); PythonInterpreter::getSingleton();
  Elements::Logging::hook() = [](const std::string& n, const std::string& t) { if (n.compare(0, 8, "Python::") == 0) lines.emplace_back(n, t); };
  Pyston::GILLocker l; const char* r = getenv("REPO_DIR");
  try { py::object sys = py::import("sys"); sys.attr("path").attr("insert")(0, std::string(STR(VDIR)) + "/props"); checks = new py::object(py::import("P28_checks")); checks->attr("start")(std::string(r ? r : "/repo"), scratchDir()); }
  catch (const py::error_already_set&) { PyErr_Print(); throw std::runtime_error("harness: the checks do not load"); }
}
static void run(Case& c, const char* name) {
  if (!checks) start(); cur = &c; discarded = false; lines.clear(); std::string err, kind; { Pyston::GILLocker l;
    try { py::object r = checks->attr("run")(name); kind = py::extract<std::string>(r[0]); err = py::extract<std::string>(r[1]); } catch (const py::error_already_set&) { kind = "error"; err = pyError(); } }
  if (discarded) c.discard(); if (kind == "failure") c.fail(err); if (kind == "error") c.fail("unexpected exception: " + err);
}
#define SUB(n) static void n(Case& c) { run(c, #n); }
SUB(loading) SUB(grouping) SUB(models) SUB(geometry) SUB(arguments) SUB(scripts) SUB(output)
PBT_MAIN({"loading", "an image or more is loaded, or the files do not match", loading, 2000, 80000},
         {"grouping", "a group is split", grouping, 2000, 80000},
         {"models", "models or parameters are registered", models, 2500, 120000},
         {"geometry", "the ellipse is not a circle", geometry, 2500, 120000},
         {"arguments", "an argument is given", arguments, 2000, 40000},
         {"scripts", "the script configures images", scripts, 1000, 30000},
         {"output", "lines are written", output, 1500, 30000})
