#include "precice/impl/versions.hpp"

const char *const precice::preciceRevision    = "no-info [git failed to run]";
const char *const precice::versionInformation = "3.4.1;"
                                                "no-info [git failed to run];"
                                                "PRECICE_FEATURE_MPI_COMMUNICATION=Y;"
                                                "PRECICE_FEATURE_PETSC_MAPPING=Y;"
                                                "PRECICE_FEATURE_GINKGO_MAPPING=N;"
                                                "PRECICE_FEATURE_PYTHON_ACTIONS=Y;"
                                                "PRECICE_BINDINGS_C=Y;"
                                                "PRECICE_BINDINGS_FORTRAN=Y;"
                                                "CXX=GNU;"
                                                "CXXFLAGS= -O1 -g1;"
                                                "LDFLAGS=";
