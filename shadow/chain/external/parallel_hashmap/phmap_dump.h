#pragma once
// Shadow: dumping the tables to files is not modelled.
namespace phmap { struct BinaryInputArchive { BinaryInputArchive(const char *) {} }; struct BinaryOutputArchive { BinaryOutputArchive(const char *) {} }; }
