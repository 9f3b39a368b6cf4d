// Running requests against the service under test and comparing with the reference.
#pragma once
#include "sut.h"

namespace vh {

using Mode = void (*)(Report&);
std::map<std::string, Mode>& modes();
struct Register
{
	Register(const char* prop, Mode m) { modes()[prop] = m; }
};

struct Outcome
{
	bool threw = false;
	std::string exception;
	J document; // {"data": ..., "errors": [...]}
	std::vector<Event> events;
	const J* data() const { return document.get("data"); }
	const J* errors() const { return document.get("errors"); }
};

struct Request_
{
	std::string text, operation;
	J vars = J::map();
	std::string describe() const { return text + "\noperation: " + operation + "\nvariables: " + json(vars); }
};

// Parse it, and resolve it with its own state.
Outcome execute(const Service& s, const CtxP& ctx, const Request_& r, std::launch launch, const std::string& stateName = "S");
Outcome execute(const Service& s, const CtxP& ctx, peg::ast& ast, const Request_& r, std::launch launch, const std::string& stateName = "S");

// Each returns what's wrong, or nothing.
std::string compareData(const Expected& e, const Outcome& o);
std::string compareErrors(const Expected& e, const Outcome& o);
std::string compareEvents(const Expected& e, const Outcome& o);    // P13
std::string compareArguments(const Expected& e, const Outcome& o); // P09
// Begin before accessors before end, for each object.
std::string checkOrder(const Outcome& o);

// Another implementation of the service than the one described at run time, for a fixed model.
struct Supplied
{
	std::unique_ptr<Model> (*model)();
	Service (*service)(const CtxP&);
	void (*world)(Ctx&);
};
extern const Supplied* supplied;

// A case of the execution properties: a model, and a service which is used for a few documents.
struct Scene
{
	std::unique_ptr<Model> model;
	CtxP ctx = std::make_shared<Ctx>();
	Service svc;
	explicit Scene(Rng& r, const SchemaOptions& so = {});
};

struct Case
{
	Doc doc;
	Request_ req;
	const Op* op = nullptr;
};
Case randomCase(const Scene& s, Rng& r, const DocOptions& o, int fancy);
std::string summary(const Model& m);

// Observe the known findings of this property.
void probes(Report& rep);

} // namespace vh
