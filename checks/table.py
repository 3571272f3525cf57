"""Properties decided by comparing functions with reference specifications."""
SPECS = {
    'C02': (['spec_C02.cpp'], 110, 'Laws over an abstract heap in which copied handles share what they refer to: a clone is taken, the original (or the clone) is changed in each way the type offers, and the summary of the other one must be the value before.'),
    'C16': (['spec_C16.cpp'], 8, 'The paths along swaths, routes and connections are summarised by value numbering, with turns as operations on the planner, and compared with a reference.'),
    'C17': (['spec_C17.cpp'], 42, 'Every operation on paths is summarised by value numbering and compared with a reference on plain lists of states.'),
    'C15': (['spec_C15.cpp'], 20, 'The normal form, the placement of turns, every planner and the check of a turn are summarised by value numbering and compared with a reference; the cache is decided by laws: a turn asked for after another one is the turn planned without a cache.'),
    'C33': (['spec_C33.cpp'], 11, 'The lines that decompose a field and how they are used are summarised by value numbering and compared with a reference.'),
    'C26': (['spec_C26.cpp'], 5, 'The graph of the headlands, the graph of what is left to cover and the route along the order found are summarised by value numbering over uninterpreted graphs and routes, and compared with a reference that lists what is added to them.'),
    'C27': (['spec_C27.cpp'], 9, 'What the façade plans for cells and fields is summarised by value numbering over uninterpreted routes, paths, headlands and swaths, and compared with a reference that calls the algorithms the options name.'),
    'C07': (['spec_C07.cpp'], 38, 'Every text written and read is summarised by value numbering, with the texts of the geometry library and the numbers of a file as uninterpreted operations, and compared with a reference.'),
    'C29': (['spec_C29.cpp'], 8, 'The importers are summarised as functions of an uninterpreted document: members of JSON values and XML elements are terms, a pointer to a missing element is null, and an access through it, or to a member of a constant document that is not there, is an outcome of its own. Each is compared with a reference; the text of GML coordinates is compared as text.'),
    'C28': (['spec_C28.cpp'], 21, 'Every random value and field is summarised by value numbering as a function of the draws of the engine, and compared with a reference; ranges, seeds and shapes are laws on the same summaries.'),
    'C30': (['spec_C30.cpp'], 7, 'The value of a spline through up to five points, at any place, is summarised by value numbering and compared with the natural spline written as its tridiagonal system; points before, ends, errors and the monotonic form are laws on the same summaries.'),
    'C24': (['spec_C24.cpp'], 5, 'Every headland operation is summarised by value numbering with loop summaries and compared with a reference that lists the distances of its buffers.'),
    'C25': (['spec_C25.cpp'], 11, 'Swath generation, the search of the best angle and the lines that decompose a field are summarised by value numbering and compared with a reference.'),
    'C12': (['spec_C12.cpp'], 24, 'Every operation that extends or reads a route is summarised by value numbering on everything that can be read from the route afterwards, and compared with a reference on plain lists.'),
    'C23': (['spec_C23.cpp'], 24, 'Every cost of a move, of swaths in order and of a route is summarised by value numbering, for the straight and for the turning objective, and compared with a reference that adds up what is driven.'),
    'C22': (['spec_C22.cpp'], 37, 'Every objective of swaths, headlands, decompositions and paths is summarised by value numbering and compared with a reference that states its definition.'),
    'C21': (['spec_C21.cpp'], 25, 'Every transformation is summarised by value numbering, with the transformation between two named systems as one operation of the geometry library, and compared with a reference.'),
    'C20': (['spec_C20.cpp'], 22, 'What a field reports after every constructor and setter, and what is read from names of coordinate systems, is summarised by value numbering and compared with a reference.'),
    'C14': (['spec_C14.cpp'], 50, 'For every way to change a graph, every query and every query made before the change, two laws of the summaries: the answer after the change is the answer of a graph freshly built with the final edges.'),
    'C13': (['spec_C13.cpp', 'spec_C13b.cpp'], 35, 'The edges, costs and paths reported by a graph that is built from a symbolic list of edges over a handful of nodes, as summarised by value numbering, are compared with a reference that relaxes the edges in a list.'),
    'C19': (['spec_C19.cpp'], 14, 'Every constructor and setter of a robot is summarised by value numbering on what its getters report afterwards, and compared with a reference.'),
    'C11': (['spec_C11.cpp'], 9, 'The order each pattern produces, on swaths of any number, variant and start corner, is summarised by value numbering with loop summaries and compared with a reference that states the pattern on plain vectors; the validation of a custom order is compared on arbitrary orders and on orders one element away from a valid one.'),
    'C10': (['spec_C10.cpp'], 30, 'Every attribute, direction and coverage operation of a swath is summarised by value numbering on what can be read from the swath afterwards, and compared with a reference.'),
    'C32': (['spec_C32.cpp'], 30, 'Every operation on lists of swaths is summarised by value numbering and compared with a reference on plain vectors.'),
    'C09': (['spec_C09.cpp'], 20, 'Every derived line, closest point, convexity and location query is summarised by value numbering and compared with a reference computed from the coordinates.'),
    'C08': (['spec_C08.cpp'], 20, 'Every angle the geometries report is summarised by value numbering and compared with a reference computed from the coordinates.'),
    'C06': (['spec_C06.cpp'], 120, 'Every measure, predicate, set operation and buffer is summarised by value numbering and compared with a reference that calls the same operation of the geometry library on the same operands.'),
    'C05': (['spec_C05.cpp'], 6, 'In-place scaling of every geometry type is summarised and compared with a reference; the iterators are decided by laws between compositions of their operations.'),
    'C01': (['spec_C01.cpp'], 12, 'clone() of every type and the constructors from library objects are summarised (with every attribute) and compared with a reference that copies the value.'),
    'C04': (['spec_C04.cpp'], 20, 'Every operation that builds, extends or replaces an element of a container is summarised and compared with a reference on the underlying library object.'),
    'C03': (['spec_C03.cpp'], 50, 'Each reader of one element of a container is summarised by value numbering and compared with a reference that reads the underlying geometry.'),
    'C18': (['spec_C18.cpp'], 45, 'Every arithmetic operation of points and of the geometries built from them is summarised by value numbering and compared with a component-wise reference function.'),
}


def check(ctx):
    from f2c import report
    files, least, text = SPECS[ctx.pid]
    ctx.explain.append(text)
    report.specs(ctx, files)
    ctx.need('functions compared with their reference', least)
