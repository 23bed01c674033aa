#pragma once
#include <Python.h>
inline PyObject* shim_pyston_init() { static PyModuleDef d = {PyModuleDef_HEAD_INIT, "pyston", nullptr, -1, nullptr, nullptr, nullptr, nullptr, nullptr}; return PyModule_Create(&d); }
#define PYSTON_MODULE_INIT shim_pyston_init
