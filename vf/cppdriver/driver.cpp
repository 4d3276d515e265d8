// Executes commands (one JSON object per line on stdin) on objects of the C++ implementation of
// dmpbbo, and answers with one JSON object per line on stdout.
#include <cstdlib>
#include <fstream>
#include <iostream>
#include <map>
#include <nlohmann/json.hpp>
#include <sstream>
#include <string>
#include <vector>

#include "dmp/Dmp.hpp"
#include "dmp/Trajectory.hpp"
#include "dynamicalsystems/DynamicalSystem.hpp"
#include "dynamicalsystems/ExponentialSystem.hpp"
#include "dynamicalsystems/SigmoidSystem.hpp"
#include "dynamicalsystems/SpringDamperSystem.hpp"
#include "dynamicalsystems/TimeSystem.hpp"
#include "eigenutils/eigen_file_io.hpp"
#include "eigenutils/eigen_json.hpp"
#include "functionapproximators/BasisFunction.hpp"
#include "functionapproximators/FunctionApproximator.hpp"
#include "functionapproximators/FunctionApproximatorLWR.hpp"
#include "functionapproximators/FunctionApproximatorRBFN.hpp"

using nlohmann::json;
using namespace DmpBbo;
using Eigen::MatrixXd;
using Eigen::VectorXd;

// --- counting of allocations -------------------------------------------------------------------

static volatile long n_allocs = 0;
static volatile bool counting = false;

#if defined(__SANITIZE_ADDRESS__)
extern "C" int __sanitizer_install_malloc_and_free_hooks(
    void (*malloc_hook)(const volatile void*, size_t),
    void (*free_hook)(const volatile void*));
static void on_malloc(const volatile void*, size_t)
{
  if (counting) n_allocs = n_allocs + 1;
}
static void on_free(const volatile void*) {}
static void install() { __sanitizer_install_malloc_and_free_hooks(on_malloc, on_free); }
#else
extern "C" void* __libc_malloc(size_t);
extern "C" void* __libc_calloc(size_t, size_t);
extern "C" void* __libc_realloc(void*, size_t);
extern "C" void* __libc_memalign(size_t, size_t);
extern "C" void* malloc(size_t n)
{
  if (counting) n_allocs = n_allocs + 1;
  return __libc_malloc(n);
}
extern "C" void* calloc(size_t a, size_t b)
{
  if (counting) n_allocs = n_allocs + 1;
  return __libc_calloc(a, b);
}
extern "C" void* realloc(void* p, size_t n)
{
  if (counting) n_allocs = n_allocs + 1;
  return __libc_realloc(p, n);
}
extern "C" int posix_memalign(void** p, size_t a, size_t n)
{
  if (counting) n_allocs = n_allocs + 1;
  *p = __libc_memalign(a, n);
  return *p ? 0 : 12;
}
extern "C" void* aligned_alloc(size_t a, size_t n)
{
  if (counting) n_allocs = n_allocs + 1;
  return __libc_memalign(a, n);
}
static void install() {}
#endif

struct Count {
  Count() { n_allocs = 0; counting = true; }
  ~Count() { counting = false; }
};
#define REALTIME(stmt, total) \
  {                           \
    {                         \
      Count count_;           \
      stmt;                   \
    }                         \
    total += n_allocs;        \
  }

// --- conversion --------------------------------------------------------------------------------

static json out(const VectorXd& v)
{
  json j = json::array();
  for (int i = 0; i < v.size(); i++) j.push_back(v[i]);
  return j;
}

static json out(const MatrixXd& m)
{
  json rows = json::array();
  for (int i = 0; i < m.rows(); i++) {
    json r = json::array();
    for (int k = 0; k < m.cols(); k++) r.push_back(m(i, k));
    rows.push_back(r);
  }
  return {{"rows", m.rows()}, {"cols", m.cols()}, {"values", rows}};
}

static VectorXd vec(const json& j)
{
  VectorXd v(j.size());
  for (size_t i = 0; i < j.size(); i++) v[i] = j[i].get<double>();
  return v;
}

static MatrixXd mat(const json& j)
{
  MatrixXd m(j.at("rows").get<int>(), j.at("cols").get<int>());
  for (int i = 0; i < m.rows(); i++)
    for (int k = 0; k < m.cols(); k++) m(i, k) = j["values"][i][k].get<double>();
  return m;
}

// --- objects -----------------------------------------------------------------------------------

static std::map<std::string, FunctionApproximator*> fas;
static std::map<std::string, DynamicalSystem*> systems;  // including DMPs
static std::map<std::string, Dmp*> dmps;
static std::map<std::string, Trajectory> trajs;

static void clear()
{
  for (auto& f : fas) delete f.second;
  for (auto& s : systems) delete s.second;
  fas.clear();
  systems.clear();
  dmps.clear();
  trajs.clear();
}

static json show(const Trajectory& t)
{
  MatrixXd m;
  json j;
  j["length"] = t.length();
  j["dim"] = t.dim();
  j["dim_misc"] = t.dim_misc();
  if (t.length() > 0) {
    t.asMatrix(m);
    j["matrix"] = out(m);
    j["duration"] = t.duration();
    j["initial_y"] = out(t.initial_y());
    j["final_y"] = out(t.final_y());
    j["range"] = out(t.getRangePerDim());
    j["ts"] = out(t.ts());
    j["ys"] = out(t.ys());
    j["yds"] = out(t.yds());
    j["ydds"] = out(t.ydds());
    j["misc"] = out(t.misc());
  }
  return j;
}

static json execute(const json& c)
{
  const std::string cmd = c.at("cmd");
  const std::string id = c.value("id", "");
  json r = json::object();
  long allocs = 0;

  if (cmd == "clear") {
    clear();
  } else if (cmd == "load") {
    std::ifstream file(c.at("file").get<std::string>());
    json j = json::parse(file);
    const std::string kind = c.at("kind");
    if (kind == "fa") {
      FunctionApproximator* f = j.get<FunctionApproximator*>();
      r["null"] = (f == NULL);
      if (f != NULL) fas[id] = f;
    } else if (kind == "dmp") {
      Dmp* d = j.get<Dmp*>();
      systems[id] = d;
      dmps[id] = d;
    } else {
      DynamicalSystem* s = j.get<DynamicalSystem*>();
      r["null"] = (s == NULL);
      if (s != NULL) systems[id] = s;
    }

    // --- constructors
  } else if (cmd == "make_dmp") {
    std::vector<FunctionApproximator*> f;
    for (auto& n : c.at("fas")) {
      f.push_back(fas.at(n));
      fas.erase(n.get<std::string>());  // the DMP owns it now
    }
    const std::string how = c.at("how");
    double tau = c.at("tau");
    VectorXd y_init = vec(c.at("y_init")), y_attr = vec(c.at("y_attr"));
    std::string scaling = c.at("scaling");
    VectorXd amplitudes = vec(c.at("amplitudes"));
    VectorXd one = VectorXd::Ones(1), zero = VectorXd::Zero(1);
    Dmp* d;
    if (how == "type")
      d = new Dmp(tau, y_init, y_attr, f, c.at("type").get<std::string>(), scaling, amplitudes);
    else if (how == "dims type")
      d = new Dmp(y_init.size(), f, c.at("type").get<std::string>(), scaling, amplitudes);
    else if (how == "no forcing term")
      d = new Dmp(tau, y_init, y_attr, c.at("alpha").get<double>(),
                  c.at("goal").get<bool>() ? new ExponentialSystem(tau, y_init, y_attr, 15) : NULL);
    else {
      double t = how == "dims systems" ? 1.0 : tau;
      VectorXd a = how == "dims systems" ? VectorXd::Zero(y_init.size()) : y_init;
      VectorXd b = how == "dims systems" ? VectorXd::Ones(y_init.size()) : y_attr;
      json custom = c.at("custom");
      ExponentialSystem* goal = NULL;
      if (custom.contains("goal"))
        goal = new ExponentialSystem(t * custom["goal"].at("ratio").get<double>(), a, b, custom["goal"].at("alpha"));
      else if (c.at("goal").get<bool>())
        goal = new ExponentialSystem(t, a, b, 15);
      DynamicalSystem *phase, *gating;
      if (!custom.contains("phase"))
        phase = new ExponentialSystem(t, one, zero, 4);
      else {
        const json& p = custom["phase"];
        double t_phase = t * p.at("ratio").get<double>();
        if (p.at("kind") == "exp")
          phase = new ExponentialSystem(t_phase, one, zero, p.at("alpha"));
        else
          phase = new TimeSystem(t_phase, p.at("kind") == "down");
      }
      if (!custom.contains("gating"))
        gating = new ExponentialSystem(t, one, zero, 4);
      else {
        const json& p = custom["gating"];
        double t_gating = t * p.at("ratio").get<double>();
        if (p.at("kind") == "exp")
          gating = new ExponentialSystem(t_gating, one, zero, p.at("alpha"));
        else
          gating = new SigmoidSystem(t_gating, one, -3 * p.at("alpha").get<double>() / t, 0.8);
      }
      if (how == "dims systems")
        d = new Dmp(y_init.size(), f, c.at("alpha").get<double>(), goal, phase, gating, scaling, amplitudes);
      else
        d = new Dmp(tau, y_init, y_attr, f, c.at("alpha").get<double>(), goal, phase, gating, scaling, amplitudes);
    }
    systems[id] = d;
    dmps[id] = d;
  } else if (cmd == "make_rbfn") {
    fas[id] = new FunctionApproximatorRBFN(mat(c.at("centers")), mat(c.at("widths")), mat(c.at("weights")));
  } else if (cmd == "make_lwr") {
    fas[id] = new FunctionApproximatorLWR(mat(c.at("centers")), mat(c.at("widths")), mat(c.at("slopes")), mat(c.at("offsets")));

    // --- function approximators
  } else if (cmd == "predict") {
    MatrixXd inputs = mat(c.at("inputs"));
    MatrixXd outputs = MatrixXd::Constant(c.value("rows", 0), c.value("cols", 0), 7.0);
    MatrixXd before = inputs;
    if (c.value("strided", false)) {  // a block of a larger matrix
      MatrixXd large = MatrixXd::Constant(inputs.rows() + 3, inputs.cols() + 2, 77.0);
      large.block(1, 1, inputs.rows(), inputs.cols()) = inputs;
      fas.at(id)->predict(large.block(1, 1, inputs.rows(), inputs.cols()), outputs);
    } else {
      fas.at(id)->predict(inputs, outputs);
    }
    r["outputs"] = out(outputs);
    r["inputs_unchanged"] = (before == inputs);
  } else if (cmd == "predict_rt") {
    MatrixXd inputs = mat(c.at("inputs"));
    VectorXd outputs(inputs.rows());
    VectorXd o(1);
    Eigen::RowVectorXd row(inputs.cols());
    FunctionApproximator* f = fas.at(id);
    for (int i = 0; i < inputs.rows(); i++) {
      row = inputs.row(i);
      REALTIME(f->predictRealTime(row, o), allocs)
      outputs[i] = o.size() == 1 ? o[0] : NAN;
    }
    r["outputs"] = out(outputs);

    // --- dynamical systems
  } else if (cmd == "get") {
    DynamicalSystem* s = systems.at(id);
    VectorXd y;
    s->get_y_init(y);
    VectorXd x;
    s->get_x_init(x);
    r = {{"dim", s->dim()}, {"dim_x", s->dim_x()}, {"dim_y", s->dim_y()}, {"tau", s->tau()}};
    r["x_init"] = out(s->x_init());
    r["x_init_2"] = out(x);
    r["y_init"] = out(y);
    VectorXd a;
    if (auto* e = dynamic_cast<ExponentialSystem*>(s)) {
      e->get_y_attr(a);
      r["y_attr"] = out(a);
      e->get_x_attr(a);
      r["x_attr"] = out(a);
      r["alpha"] = e->alpha();
    } else if (auto* q = dynamic_cast<SpringDamperSystem*>(s)) {
      q->get_y_attr(a);
      r["y_attr"] = out(a);
      r["damping"] = q->damping_coefficient();
      r["spring"] = q->spring_constant();
      r["mass"] = q->mass();
    } else if (auto* d = dynamic_cast<Dmp*>(s)) {
      r["dim_dmp"] = d->dim_dmp();
      r["dmp_y_init"] = out(d->y_init());
    }
  } else if (cmd == "set") {
    DynamicalSystem* s = systems.at(id);
    const std::string what = c.at("what");
    if (what == "tau") {
      s->set_tau(c.at("value"));
    } else {
      VectorXd v = vec(c.at("value"));
      if (what == "x_init")
        s->set_x_init(v);
      else if (what == "y_init") {
        if (dmps.count(id) && !c.value("through_base", false))
          dmps[id]->set_y_init(v);
        else
          s->set_y_init(v);
      } else if (what == "y_attr" || what == "x_attr") {
        if (auto* e = dynamic_cast<ExponentialSystem*>(s)) {
          if (what == "x_attr") e->set_x_attr(v);
          else e->set_y_attr(v);
        } else if (auto* q = dynamic_cast<SpringDamperSystem*>(s))
          q->set_y_attr(v);
        else
          dmps.at(id)->set_y_attr(v);
      } else if (what == "damping") {
        if (dmps.count(id)) dmps[id]->set_damping_coefficient(v[0]);
        else dynamic_cast<SpringDamperSystem&>(*s).set_damping_coefficient(v[0]);
      } else if (what == "spring") {
        if (dmps.count(id)) dmps[id]->set_spring_constant(v[0]);
        else dynamic_cast<SpringDamperSystem&>(*s).set_spring_constant(v[0]);
      } else if (what == "mass") {
        dynamic_cast<SpringDamperSystem&>(*s).set_mass(v[0]);
      }
    }
  } else if (cmd == "diff") {
    VectorXd x = vec(c.at("x")), xd = VectorXd::Constant(x.size(), 7.0);
    VectorXd before = x;
    const DynamicalSystem* s = systems.at(id);
    REALTIME(s->differentialEquation(x, xd), allocs)
    r["xd"] = out(xd);
    r["x_unchanged"] = (before == x);
  } else if (cmd == "analytical") {
    VectorXd ts = vec(c.at("ts"));
    const DynamicalSystem* s = systems.at(id);
    MatrixXd xs, xds;
    if (c.value("transposed", false)) {
      xs = MatrixXd::Constant(s->dim(), ts.size(), 7.0);
      xds = xs;
    } else if (c.contains("shape")) {
      const json& q = c["shape"];
      xs = MatrixXd::Constant(q[0].get<int>(), q[1].get<int>(), 7.0);
      xds = MatrixXd::Constant(q[2].get<int>(), q[3].get<int>(), 7.0);
    }
    bool transposed = xs.rows() == s->dim() && xs.cols() == ts.size();
    if (dmps.count(id) && !c.value("through_base", false)) {
      const Dmp* d = dmps[id];
      MatrixXd forcing, fa;
      d->analyticalSolution(ts, xs, xds, forcing, fa);
      r["forcing"] = out(forcing);
      r["fa"] = out(fa);
      if (!transposed) {
        MatrixXd y, yd, ydd;
        d->statesAsTrajectory(xs, xds, y, yd, ydd);
        r["y"] = out(y);
        r["yd"] = out(yd);
        r["ydd"] = out(ydd);
        Trajectory t, t2, t3;
        d->statesAsTrajectory(ts, xs, xds, t);
        r["traj"] = show(t);
        d->analyticalSolution(ts, t2);
        r["traj2"] = show(t2);
        MatrixXd forcing2;
        d->analyticalSolution(ts, t3, forcing2);
        r["traj3"] = show(t3);
        r["forcing3"] = out(forcing2);
        VectorXd p, v, a;
        d->stateAsPosVelAcc(xs.row(xs.rows() - 1), xds.row(xds.rows() - 1), p, v, a);
        r["pva"] = {out(p), out(v), out(a)};
      }
    } else {
      s->analyticalSolution(ts, xs, xds);
    }
    r["xs"] = out(xs);
    r["xds"] = out(xds);
  } else if (cmd == "start") {
    DynamicalSystem* s = systems.at(id);
    VectorXd x = VectorXd::Constant(s->dim(), 7.0), xd = VectorXd::Constant(s->dim(), -7.0);
    if (c.contains("y_init"))
      s->integrateStart(vec(c["y_init"]), x, xd);
    else
      s->integrateStart(x, xd);
    r["x"] = out(x);
    r["xd"] = out(xd);
  } else if (cmd == "step") {
    const DynamicalSystem* s = systems.at(id);
    const std::string method = c.at("method");
    double dt = c.at("dt");
    int n = c.value("n", 1);
    VectorXd x = vec(c.at("x"));
    VectorXd xu = VectorXd::Constant(x.size(), 7.0), xd = VectorXd::Constant(x.size(), -7.0);
    VectorXd before = x;
    bool aliased = c.value("aliased", false);
    json xs = json::array(), xds = json::array();
    for (int i = 0; i < n; i++) {
      if (aliased) {
        if (method == "euler") REALTIME(s->integrateStepEuler(dt, x, x, xd), allocs)
        else if (method == "rk") REALTIME(s->integrateStepRungeKutta(dt, x, x, xd), allocs)
        else REALTIME(s->integrateStep(dt, x, x, xd), allocs)
      } else {
        if (method == "euler") REALTIME(s->integrateStepEuler(dt, x, xu, xd), allocs)
        else if (method == "rk") REALTIME(s->integrateStepRungeKutta(dt, x, xu, xd), allocs)
        else REALTIME(s->integrateStep(dt, x, xu, xd), allocs)
        if (before != x) r["x_changed"] = true;
        x = xu;
        before = x;
      }
      xs.push_back(out(x));
      xds.push_back(out(xd));
    }
    r["xs"] = xs;
    r["xds"] = xds;
  } else if (cmd == "print") {
    std::ostringstream s;
    if (systems.count(id)) s << *systems[id];
    else s << *fas.at(id);
    r["text"] = s.str();

    // --- basis functions
  } else if (cmd == "basis") {
    const std::string kind = c.at("kind");
    MatrixXd inputs = mat(c.at("inputs"));
    MatrixXd before = inputs;
    MatrixXd act = MatrixXd::Constant(c.value("rows", 0), c.value("cols", 0), 7.0);
    MatrixXd large = MatrixXd::Constant(inputs.rows() + 3, inputs.cols() + 2, 77.0);
    large.block(1, 1, inputs.rows(), inputs.cols()) = inputs;
    bool strided = c.value("strided", false);
#define CALL(f, ...)                                                            \
  if (strided)                                                                  \
    f(__VA_ARGS__, large.block(1, 1, inputs.rows(), inputs.cols()), act OPTIONS); \
  else                                                                          \
    f(__VA_ARGS__, inputs, act OPTIONS);
    if (kind == "gaussian") {
      bool normalized = c.at("normalized"), asymmetric = c.at("asymmetric");
#define OPTIONS , normalized, asymmetric
      MatrixXd centers = mat(c.at("centers")), widths = mat(c.at("widths"));
      CALL(BasisFunction::Gaussian::activations, centers, widths)
#undef OPTIONS
    } else if (kind == "gaussian full") {
      bool normalized = c.at("normalized");
      MatrixXd centers = mat(c.at("centers"));
      std::vector<VectorXd> mus;
      std::vector<MatrixXd> covars;
      std::vector<double> priors;
      for (int i = 0; i < centers.rows(); i++) {
        mus.push_back(centers.row(i).transpose());
        covars.push_back(mat(c.at("covars").at(i)));
        priors.push_back(c.at("priors").at(i));
      }
#define OPTIONS , normalized
      CALL(BasisFunction::Gaussian::activations, mus, covars, priors)
#undef OPTIONS
    } else {
#define OPTIONS
      MatrixXd freqs = mat(c.at("freqs"));
      VectorXd phases = vec(c.at("phases"));
      if (kind == "cosine") {
        CALL(BasisFunction::Cosine::activations, freqs, phases)
      } else {
        std::vector<MatrixXd> f;
        std::vector<VectorXd> p;
        for (int i = 0; i < freqs.rows(); i++) {
          f.push_back(freqs.row(i));
          p.push_back(phases.segment(i, 1));
        }
        CALL(BasisFunction::Cosine::activations, f, p)
      }
#undef OPTIONS
    }
#undef CALL
    r["activations"] = out(act);
    r["inputs_unchanged"] = (before == inputs);

    // --- objects written as JSON, and read back
  } else if (cmd == "copy") {
    const std::string to = c.at("to");
    const std::string how = c.value("how", "pointer");
    json j;
    std::ostringstream s;
    if (fas.count(id)) {
      if (how == "stream") s << *fas[id];
      else j = fas[id];
    } else if (how == "derived" && dmps.count(id)) {
      j = dmps[id];
    } else {
      if (how == "stream") s << *systems.at(id);
      else j = systems.at(id);
    }
    std::string text = how == "stream" ? s.str() : j.dump();
    if (c.contains("file")) {
      {
        std::ofstream file(c["file"].get<std::string>());
        file << text << std::endl;
      }
      std::ifstream file(c["file"].get<std::string>());
      j = json::parse(file);
    } else {
      j = json::parse(text);
    }
    r["text"] = text;
    if (fas.count(id)) {
      FunctionApproximator* f = j.get<FunctionApproximator*>();
      r["null"] = (f == NULL);
      if (fas.count(to)) delete fas[to];
      fas.erase(to);
      if (f != NULL) fas[to] = f;
    } else {
      DynamicalSystem* d;
      if (dmps.count(id) && !c.value("through_base", false)) d = j.get<Dmp*>();
      else d = j.get<DynamicalSystem*>();
      r["null"] = (d == NULL);
      if (systems.count(to)) delete systems[to];
      systems.erase(to);
      dmps.erase(to);
      if (d != NULL) systems[to] = d;
      if (dmps.count(id) && d != NULL) {
        Dmp* as_dmp = dynamic_cast<Dmp*>(d);
        if (as_dmp != NULL) dmps[to] = as_dmp;
      }
    }

    // --- trajectories and matrices
  } else if (cmd == "traj_read") {
    trajs[id] = Trajectory::readFromFile(c.at("file"), c.value("n_misc", 0));
    r = show(trajs[id]);
  } else if (cmd == "traj_make") {
    VectorXd ts = vec(c.at("ts"));
    if (c.at("misc").is_null())
      trajs[id] = Trajectory(ts, mat(c.at("ys")), mat(c.at("yds")), mat(c.at("ydds")));
    else
      trajs[id] = Trajectory(ts, mat(c.at("ys")), mat(c.at("yds")), mat(c.at("ydds")), mat(c.at("misc")));
    r = show(trajs[id]);
  } else if (cmd == "traj_set_misc") {
    trajs.at(id).set_misc(mat(c.at("misc")));
    r = show(trajs[id]);
  } else if (cmd == "traj_append") {
    trajs.at(id).append(trajs.at(c.at("other")));
    r = show(trajs[id]);
    r["other"] = show(trajs.at(c.at("other")));
  } else if (cmd == "traj_show") {
    r = show(trajs.at(id));
    std::ostringstream s;
    s << trajs.at(id);
    r["text"] = s.str();
  } else if (cmd == "traj_save") {
    if (c.contains("directory"))
      r["ok"] = trajs.at(id).saveToFile(c["directory"].get<std::string>(), c.at("file").get<std::string>(), c.at("overwrite").get<bool>());
    else
      r["ok"] = trajs.at(id).saveToFile(c.at("file").get<std::string>(), c.at("overwrite").get<bool>());
  } else if (cmd == "traj_generate") {
    VectorXd ts = vec(c.at("ts"));
    const std::string how = c.at("how");
    if (how == "minjerk")
      trajs[id] = Trajectory::generateMinJerkTrajectory(ts, vec(c.at("from")), vec(c.at("to")));
    else if (how == "polynomial")
      trajs[id] = Trajectory::generatePolynomialTrajectory(ts, vec(c.at("from")), vec(c.at("yd_from")), vec(c.at("ydd_from")), vec(c.at("to")), vec(c.at("yd_to")), vec(c.at("ydd_to")));
    else
      trajs[id] = Trajectory::generatePolynomialTrajectoryThroughViapoint(ts, vec(c.at("from")), vec(c.at("via")), c.at("via_time"), vec(c.at("to")));
    r = show(trajs[id]);
  } else if (cmd == "mat_save") {
    MatrixXd m = mat(c.at("matrix"));
    if (c.contains("directory"))
      r["ok"] = saveMatrix(c["directory"].get<std::string>(), c.at("file").get<std::string>(), m, c.at("overwrite").get<bool>());
    else
      r["ok"] = saveMatrix(c.at("file").get<std::string>(), m, c.at("overwrite").get<bool>());
  } else if (cmd == "mat_load") {
    const std::string type = c.value("type", "matrix");
    if (type == "matrix") {
      MatrixXd m = MatrixXd::Constant(2, 3, 7.0);
      r["ok"] = loadMatrix(c.at("file").get<std::string>(), m);
      r["matrix"] = out(m);
    } else if (type == "int") {
      Eigen::MatrixXi m;
      r["ok"] = loadMatrix(c.at("file").get<std::string>(), m);
      r["matrix"] = out(MatrixXd(m.cast<double>()));
    }
  } else {
    throw std::runtime_error("driver: unknown command " + cmd);
  }
  r["allocs"] = allocs;
  return r;
}

int main()
{
  install();
  // what dmpbbo prints must not interfere with the answers
  std::ostream answers(std::cout.rdbuf());
  std::ostringstream other;
  std::streambuf* cout_buffer = std::cout.rdbuf(other.rdbuf());
  std::streambuf* cerr_buffer = std::cerr.rdbuf(other.rdbuf());
  std::string line;
  while (std::getline(std::cin, line)) {
    json r;
    try {
      r = execute(json::parse(line));
    } catch (const std::exception& e) {
      counting = false;
      r = {{"exception", e.what()}};
    }
    r["printed"] = !other.str().empty();
    other.str("");
    answers << r.dump() << std::endl;
  }
  clear();
  std::cout.rdbuf(cout_buffer);
  std::cerr.rdbuf(cerr_buffer);
  return 0;
}
