GEO = ["ecl_geometry/src/lib/polynomial*.cpp", "ecl_geometry/src/lib/pascals_triangle.cpp", "ecl_exceptions/src/lib/*.cpp", "ecl_type_traits/src/lib/*.cpp", "ecl_formatters/src/lib/*.cpp"]
