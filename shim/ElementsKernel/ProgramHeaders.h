// Stand-in for Elements' program frame: generic options, command line first, then the configuration file
#pragma once
#include <boost/filesystem.hpp>
#include <boost/program_options.hpp>
#include <cstdlib>
#include <fstream>
#include <map>
#include <memory>
#include <string>
#include <vector>
#include "ElementsKernel/Exception.h"
#include "ElementsKernel/Logging.h"
#define ELEMENTS_API
namespace Elements {
class Program {
public:
  virtual ~Program() = default;
  virtual boost::program_options::options_description defineSpecificProgramOptions() { return {}; }
  virtual std::pair<boost::program_options::options_description, boost::program_options::positional_options_description> defineProgramArguments() { return {defineSpecificProgramOptions(), {}}; }
  virtual ExitCode mainMethod(std::map<std::string, boost::program_options::variable_value>& args) = 0;
};
class ProgramManager {
public:
  explicit ProgramManager(std::unique_ptr<Program> p) : m_program(std::move(p)) {}
  static void onTerminate() noexcept { _Exit(70); }
  ExitCode run(int argc, char* argv[]) {
    namespace po = boost::program_options;
    po::options_description all; all.add_options()("config-file", po::value<boost::filesystem::path>()->default_value(""), "configuration file")("log-level", po::value<std::string>()->default_value("INFO"), "")("log-file", po::value<std::string>(), "")("version", "")("help", "");
    auto specific = m_program->defineProgramArguments(); all.add(specific.first);
    po::variables_map vm; po::store(po::command_line_parser(argc, argv).options(all).positional(specific.second).run(), vm);
    auto file = vm["config-file"].as<boost::filesystem::path>();
    if (!file.empty()) { std::ifstream in(file.string()); if (in) po::store(po::parse_config_file(in, all), vm); }
    po::notify(vm);
    std::map<std::string, po::variable_value> args(vm.begin(), vm.end());
    return m_program->mainMethod(args);
  }
private:
  std::unique_ptr<Program> m_program;
};
}
#define CREATE_MANAGER_WITH_ARGS(name, Type, ...) Elements::ProgramManager name{std::unique_ptr<Elements::Program>(new Type(__VA_ARGS__))}
