P='src/graph/planar_graph.rs'; Y='src/geometry/polygon.rs'; U='src/geometry/utils.rs'; B='src/math/blade.rs'
HG = '''#![allow(unused)]
use nalgebra_glm::Vec2;
use kami::geometry::utils::*;
use kami::geometry::polygon::*;
use kami::graph::planar_graph::*;
fn p(x: f32, y: f32) -> Vec2 { Vec2::new(x, y) }
fn ends<T: Copy + Default, U: Copy + Default>(g: &PlanarGraph<T, U>) -> Vec<(usize, usize)> { g.get_edges().iter().map(|e| e.get_node_indices()).collect() }
fn ok<T: Copy + Default, U: Copy + Default>(g: &PlanarGraph<T, U>) -> bool { ends(g).iter().all(|e| e.0 < g.node_count() && e.1 < g.node_count()) }
'''
SEEDS = [
 dict(id='m08-choose-symmetric', prop='M08', file=B, edits=[
    ('    let mut num = n;\n    for i in 1..k {', '    let k = k.min(n - k);\n    let mut num = n;\n    for i in 1..k {')],
  needs='k equal to n', breaks='using the symmetry of the binomial coefficient turns k = n into k = 0 after the case k = 0 was handled, so the number of basis n-blades is n instead of 1',
  demo=HG+'''use kami::math::blade::*;
fn main() {
    for n in 0..12 {
        assert_eq!((0..=n).map(|k| number_of_basis_blades(n, k)).sum::<usize>(), total_number_of_basis_blades(n));
    }
}'''),
 dict(id='g01-collinear-tolerance', prop='G01', file=Y, edits=[
    ('    area2(a, b, c) == 0.0\n', '    area2(a, b, c).abs() < std::f32::EPSILON\n')],
  needs='three points whose signed double area is non-zero but below the machine epsilon', breaks='tiny triangles are collinear and at the same time strictly left',
  demo=HG+'''fn main() {
    let (a, b, c) = (p(0.0, 0.0), p(1e-4, 0.0), p(0.0, 1e-4));
    let n = [left(&a, &b, &c), left(&b, &a, &c), collinear(&a, &b, &c)].iter().filter(|x| **x).count();
    assert_eq!(n, 1);
}'''),
 dict(id='g07-unique-last-only', prop='G07', file=U, edits=[
    ('        for b in unique.iter() {', '        for b in unique.iter().rev().take(4) {')],
  needs='a duplicate of a point that at least four further distinct points follow', breaks='duplicate removal only looks at the last four points kept, so a duplicate further back survives',
  demo=HG+'''fn main() {
    let mut v: Vec<Vec2> = (0..6).map(|i| p(i as f32, 1.0)).collect();
    v.push(p(0.0, 1.0));
    assert_eq!(unique_points_among(&v).len(), 6);
}'''),
 dict(id='y01-first-corner', prop='Y01', file=Y, edits=[
    ('        if polygon.area_poly2() < 0.0 {', '        if area2(&vertices[vertices.len() - 1], &vertices[0], &vertices[1]) < 0.0 {')],
  needs='a polygon whose first vertex is a reflex corner', breaks='the orientation is read off the first corner, so a counter-clockwise polygon that begins with a reflex corner is reversed',
  demo=HG+'''fn main() {
    let v = vec![p(2.0, 1.0), p(4.0, 4.0), p(0.0, 0.0), p(4.0, 0.0)];
    let w: f32 = (0..4).map(|i| v[i].x * v[(i + 1) % 4].y - v[(i + 1) % 4].x * v[i].y).sum();
    let mut u = v.clone();
    if w < 0.0 { u.reverse(); }
    assert_eq!(Polygon::new(&v).unwrap().get_vertices(), &u);
    u.reverse();
    let q = Polygon::new(&u).unwrap();
    u.reverse();
    assert_eq!(q.get_vertices(), &u);
}'''),
 dict(id='y02-area-fan', prop='Y02', file=Y, edits=[
    ('        self.area_poly2().abs() * 0.5\n', '        // The sum of the areas of the fan of triangles around the first vertex\n        (1..self.vertices.len() - 1).map(|i| area2(&self.vertices[0], &self.vertices[i], &self.vertices[i + 1]).abs()).sum::<f32>() * 0.5\n')],
  needs='a polygon that is not star-shaped from its first vertex', breaks='the triangles of the fan are all counted positively, so the area of some non-convex polygons is too large and depends on the first vertex',
  demo=HG+'''fn main() {
    let v = vec![p(0.0, 0.0), p(4.0, 0.0), p(1.0, 1.0), p(0.0, 4.0)];
    let a = Polygon::new(&v).unwrap().area();
    let mut w = v.clone();
    w.rotate_left(1);
    let b = Polygon::new(&w).unwrap().area();
    assert!((a - b).abs() < 1e-4 && (a - 4.0).abs() < 1e-4, "{} {}", a, b);
}'''),
 dict(id='y03-neighbour-wrap', prop='Y03', file=Y, edits=[
    ('        let neighbor_next = if index == self.vertices.len() - 1 {\n            0\n', '        let neighbor_next = if index == self.vertices.len() - 1 {\n            1\n')],
  needs='a diagonal from the last vertex of the polygon whose answer depends on the corner there', breaks='the vertex after the last one is taken to be vertex 1, so the interior angle at the last vertex is wrong and the test is not symmetric',
  demo=HG+'''fn main() {
    let g = Polygon::new(&vec![p(0.0, 0.0), p(4.0, 0.0), p(4.0, 4.0), p(2.0, 5.0), p(0.0, 4.0)]).unwrap();
    for i in 0..5 { for j in 0..5 {
        let near = i == j || (i + 1) % 5 == j || (j + 1) % 5 == i;
        assert_eq!(g.diagonal(i, j), !near, "{} {}", i, j);
    } }
}'''),
 dict(id='y03-reflex-weak', prop='Y03', file=Y, edits=[
    ('        !(left_on(&a, &b, &a1) && left_on(&b, &a, &a0))', '        !(left(&a, &b, &a1) && left(&b, &a, &a0))')],
  needs='a reflex vertex and another vertex on the line through one of its edges', breaks='a chord that leaves a reflex corner along one of its edges counts as interior',
  demo=HG+'''fn main() {
    // vertex 2 is reflex; vertex 1 is its neighbour, so 1-2 is an edge and not a diagonal
    let g = Polygon::new(&vec![p(0.0, 0.0), p(4.0, 0.0), p(1.0, 1.0), p(0.0, 4.0)]).unwrap();
    for i in 0..4 { assert!(!g.diagonal(i, (i + 1) % 4), "{}", i); assert!(!g.diagonal((i + 1) % 4, i)); }
    // the bottom of the pocket joins two reflex corners
    let h = Polygon::new(&vec![p(0.0, 0.0), p(6.0, 0.0), p(6.0, 6.0), p(4.0, 6.0), p(4.0, 2.0), p(2.0, 2.0), p(2.0, 6.0), p(0.0, 6.0)]).unwrap();
    for i in 0..8 { assert!(!h.diagonal(i, (i + 1) % 8), "{}", i); assert!(!h.diagonal((i + 1) % 8, i)); }
}'''),
 dict(id='y04-ear-status', prop='Y04', file=Y, edits=[
    ('is_ear[v3] = copy.diagonal(v1, v4);', 'is_ear[v3] = copy.diagonal(v0, v4);')],
  needs='a polygon where the segment two before to two after a cut vertex is interior and the segment that would cut off its successor is not, or the other way round', breaks='the wrong segment is tested when the successor of a cut ear is reconsidered, so a later triangle may leave the polygon',
  demo=HG+'''fn area(v: &Vec<Vec2>) -> f32 { let n = v.len(); (0..n).map(|i| v[i].x * v[(i + 1) % n].y - v[(i + 1) % n].x * v[i].y).sum::<f32>() * 0.5 }
fn main() {
    let mut s = 12345u64;
    let mut rnd = |m: u64| { s = s.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407); (s >> 33) % m };
    for _ in 0..400 {
        // star-shaped around the origin
        let n = 5 + rnd(6) as usize;
        let v: Vec<Vec2> = (0..n).map(|i| { let t = 6.283185 * (i as f32 + 0.1) / n as f32; let r = 1.0 + rnd(97) as f32 / 7.0; p(r * t.cos(), r * t.sin()) }).collect();
        let g = Polygon::new(&v).unwrap();
        let (tx, rx) = std::sync::mpsc::channel();
        let h = g.clone();
        std::thread::spawn(move || { let _ = tx.send(h.triangulate()); });
        if let Ok(t) = rx.recv_timeout(std::time::Duration::from_secs(2)) {
            let sum: f32 = t.iter().map(|x| x.area()).sum();
            assert!((sum - g.area()).abs() < 1e-2, "{:?}: {} {}", v, sum, g.area());
        }
    }
}'''),
 dict(id='r01-remap-after-id', prop='R01', file=P, edits=[
    ('                if remapped_nodes.contains_key(&edge.dst) {', '                // Nodes before the removed one keep their index\n                if edge.dst > id && remapped_nodes.contains_key(&edge.dst) {')],
  needs='removing a node which strands a neighbour with a smaller index, while an edge elsewhere ends in a node in between', breaks='the destination of an edge is not renumbered although a stray node before it was removed: it may point past the end of the node list',
  demo=HG+'''fn main() {
    let mut g: PlanarGraph<(), ()> = PlanarGraph::new();
    for i in 0..4 { g.add_node(&p(i as f32 * 10.0, (i * i) as f32), ()); }
    g.add_edge(0, 3, ());
    g.add_edge(1, 2, ());
    g.remove_node(3);
    assert!(ok(&g), "{:?} of {} nodes", ends(&g), g.node_count());
}'''),
 dict(id='r02-split-first-only', prop='R02', file=P, edits=[
    ('                    changed_edges.push(index);\n                }\n            }\n', '                    changed_edges.push(index);\n\n                    // In a planar graph, no other edge can contain this node\n                    break;\n                }\n            }\n')],
  needs='a new node in the interior of two overlapping collinear edges', breaks='only the first edge that contains the new node is split',
  demo=HG+'''fn main() {
    let mut g: PlanarGraph<(), i32> = PlanarGraph::new();
    for x in [0.0f32, 4.0, -1.0, 5.0].iter() { g.add_node(&p(*x, 0.0), ()); }
    g.add_edge(0, 1, 7);
    g.add_edge(2, 3, 8);
    assert_eq!(g.edge_count(), 2);
    g.add_node(&p(2.0, 0.0), ());
    assert_eq!(g.edge_count(), 4, "{:?}", ends(&g));
}'''),
 dict(id='r02-split-data', prop='R02', file=P, edits=[
    ('                    additional_edges.push(Edge::new(edge.dst, id, *edge.get_data(), DEFAULT_LABEL));', '                    let data = if changed_edges.is_empty() { *edge.get_data() } else { U::default() };\n                    additional_edges.push(Edge::new(edge.dst, id, data, DEFAULT_LABEL));')],
  needs='a node that splits two edges at once, which happens where two edges overlap or cross in a node added later', breaks='the second edge split at a node loses its data on the new half',
  demo=HG+'''fn main() {
    let mut g: PlanarGraph<(), i32> = PlanarGraph::new();
    for q in [p(0.0, 0.0), p(4.0, 0.0), p(2.0, -2.0), p(2.0, 2.0)].iter() { g.add_node(q, ()); }
    g.add_edge(0, 1, 7);
    g.add_edge(2, 3, 8);
    let mut d: Vec<i32> = g.get_edges().iter().map(|e| *e.get_data()).collect();
    d.sort();
    assert_eq!(d, [7, 7, 8, 8]);
}'''),
 dict(id='r03-existing-node', prop='R03', file=P, edits=[
    ('                changed_edges.extend(&self.split_edges_at_node(index));', '                // A node which already has edges is an end point of all the edges that meet there\n                if self.number_of_edges_incident_to(index) == Some(0) {\n                    changed_edges.extend(&self.split_edges_at_node(index));\n                }')],
  needs='a new edge that passes exactly through the end node of an existing edge', breaks='the new edge is not split at a node in its interior that already has an edge',
  demo=HG+'''fn main() {
    let mut g: PlanarGraph<(), i32> = PlanarGraph::new();
    for q in [p(0.0, 0.0), p(4.0, 0.0), p(2.0, 0.0), p(2.0, 2.0)].iter() { g.add_node(q, ()); }
    g.add_edge(2, 3, 1);
    g.add_edge(0, 1, 2);
    assert!(g.has_edge_between_nodes(0, 2) && g.has_edge_between_nodes(2, 1), "{:?}", ends(&g));
}'''),
 dict(id='r03-duplicate-direction', prop='R03', file=P, edits=[
    ('        if !self.has_edge_between_nodes(src, dst) {', '        if !self.edges.iter().any(|edge| (src.min(dst), src.max(dst)) == edge.get_node_indices()) {')],
  needs='adding an edge again that was stored from its higher to its lower end node', breaks='an existing edge stored from the higher to the lower node index is not recognised and gets added again',
  demo=HG+'''fn main() {
    for (a, b) in [(0, 1), (1, 0)].iter() {
        for (c, d) in [(0, 1), (1, 0)].iter() {
            let mut g: PlanarGraph<(), i32> = PlanarGraph::new();
            g.add_node(&p(0.0, 0.0), ());
            g.add_node(&p(4.0, 0.0), ());
            g.add_edge(*a, *b, 1);
            g.add_edge(*c, *d, 2);
            assert_eq!(g.edge_count(), 1, "{} {} {} {}", a, b, c, d);
        }
    }
}'''),
 dict(id='r04-report-from-id', prop='R04', file=P, edits=[
    ('            let changed_nodes = (min_node_index..self.node_count()).collect::<Vec<_>>();', '            let changed_nodes = (min_node_index.max(id.saturating_sub(1))..self.node_count()).collect::<Vec<_>>();')],
  needs='removing a node that strands a neighbour whose index is smaller by two or more', breaks='the report starts next to the removed node although a stray node before it was removed as well',
  demo=HG+'''fn main() {
    let mut g: PlanarGraph<(), i32> = PlanarGraph::new();
    for i in 0..5 { g.add_node(&p(i as f32 * 10.0, (i * i) as f32), ()); }
    g.add_edge(0, 4, 1);
    let r = g.remove_node(4);
    assert_eq!(r.0, vec![0, 1, 2, 3, 4]);
}'''),
 dict(id='r05-loop-end', prop='R05', file=P, edits=[
    ('            } else if self.number_of_edges_incident_to(index_b).unwrap() == 1 {', '            } else if index_b > index_a && self.number_of_edges_incident_to(index_b).unwrap() == 1 {')],
  needs='removing an edge stored from a higher to a lower node index whose destination has no other edge and whose source has', breaks='the destination of such an edge is left behind as a stray node',
  demo=HG+'''fn main() {
    let mut g: PlanarGraph<(), i32> = PlanarGraph::new();
    for i in 0..4 { g.add_node(&p(i as f32 * 10.0, (i * i) as f32), ()); }
    g.add_edge(3, 2, 1);
    g.add_edge(3, 0, 1);
    g.remove_edge(1);
    assert_eq!(g.node_count(), 2 + 1);
}'''),
 dict(id='r06-incident-loops', prop='R06', file=P, edits=[
    ('            return Some(self.edges.iter().filter(|edge| edge.includes(id)).count());', '            return Some(self.edges.iter().filter(|edge| edge.src == id).count() + self.edges.iter().filter(|edge| edge.dst == id).count());')],
  needs='an edge from a node to itself', breaks='an edge from a node to itself counts twice among the edges incident to the node',
  demo=HG+'''fn main() {
    let mut g: PlanarGraph<(), i32> = PlanarGraph::new();
    g.add_node(&p(0.0, 0.0), ());
    g.add_edge(0, 0, 1);
    assert_eq!(g.edge_count(), 1);
    assert_eq!(g.number_of_edges_incident_to(0), Some(1));
}'''),
]
