#!/bin/bash
# Eigen 3.4.0's vector iterators are not marked contiguous, which newer Eigen does
# and the repository relies on (std::span from Eigen::VectorXd).  Make a copy that is.
set -e
D=$1
[ -f $D/.ok ] && exit 0
mkdir -p $D; cp -r /usr/include/eigen3/Eigen /usr/include/eigen3/unsupported $D/
f=$D/Eigen/src/Core/StlIterators.h
awk '/^class pointer_based_stl_iterator$/{p=1} {print} p&&/typedef std::random_access_iterator_tag iterator_category;/{print "  typedef std::conditional_t<XprType::InnerStrideAtCompileTime==1, std::contiguous_iterator_tag, std::random_access_iterator_tag> iterator_concept;"; p=0}' $f > $f.new
mv $f.new $f; touch $D/.ok
