#ifndef GRAPHS_H
#define GRAPHS_H
#include <string>
#include <vector>
#include "ref.h"
struct Count {
  static long live, boom;
  static void in() {if (boom>0 && --boom==0) throw 42; live++;}
  Count() {in();} Count(const Count&) {in();} ~Count() {live--;}
  Count& operator=(const Count&) {return *this;}
};
struct Node {
  int id; std::string name; Node* left; Node* mid; Node* right; double tail;
  classdesc::Exclude<Count> c;
  Node(): id(-1), left(0), mid(0), right(0), tail(0) {}
};
struct Tree {int id; Tree* l; Tree* r; short s; classdesc::Exclude<Count> c; Tree(): id(-1), l(0), r(0), s(0) {}};
struct CNode {int id; std::vector<CNode*> out; CNode(): id(-1) {}};
struct RNode {int id; classdesc::ref<RNode> a, b; RNode(): id(-1) {}};
struct Holder {int before; Node* root; std::string after; Holder(): before(0), root(0) {}};
struct FNode {int id; FNode* next; int trip; FNode* other; FNode(): id(-1), next(0), trip(0), other(0) {}};
struct GP {int id; GP* n; GP* m; GP(): id(-1), n(0), m(0) {}};
struct TP {int id; TP* n; TP* m; TP(): id(-1), n(0), m(0) {}};
#pragma graphnode GP
#pragma treenode TP
#endif
