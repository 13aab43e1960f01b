// Included before a distributed program: every Filter it uses prints its
// output data, to all digits, and the number of its applications, when it goes away. (Filter.cpp is compiled
// with the class renamed.)
#pragma once
#define Filter VfRealFilter
#include "Filter.h"
#undef Filter
#include <iostream>

class Filter : public VfRealFilter {
public:
  using VfRealFilter::VfRealFilter;
  void applyFilter() {
    ++this->vfApplied;
    VfRealFilter::applyFilter();
  }
  ~Filter() {
    if (!this->isDecompValid()) return;
    std::cerr.precision(17);
    std::cerr << "[vf applied " << this->vfApplied << "]\n[vf final]\n";
    this->printOutData();
    std::cerr << "[vf end]\n";
  }
private:
  int vfApplied = 0;
};
