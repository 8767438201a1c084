------------------------- MODULE MCShippedDesigns ---------------------------
EXTENDS ShippedDesigns
MCLevels == <<{1, 2}, {1, 2, 3}>>
(* The designs that ship with the framework: the levels of their factors and   *)
(* the number of entries.  Data designs: publishers, largest size, ratio,      *)
(* prices, impressions, overlap (the M3 design's independent overlaps by their *)
(* random source).  Trials: strategy, spend fractions (for 7 publishers, or as *)
(* many as the design is for), sketch, budget, replica, cap, test points.      *)
Tenths == {"0." \o ToString(a) : a \in 1..9}
TenthsPairs == {"(" \o a \o "," \o b \o ")" : a, b \in Tenths}
Announced == [
  data_simple |-> [kind |-> "factorial", n |-> 27, levels |-> <<
      {"1",
         "2",
         "5"},
      {"100",
         "1000",
         "500"},
      {"0.1",
         "0.5",
         "0.9"},
      {"(fixedpricegenerator,{cost_per_impression=0.1})"},
      {"(homogeneousimpressiongenerator,{poisson_lambda=3})"},
      {"(dataset,{})"}>>],
  data_analysis |-> [kind |-> "factorial", n |-> 72, levels |-> <<
      {"1",
         "2",
         "3"},
      {"4000",
         "8000"},
      {"0.5",
         "1"},
      {"(fixedpricegenerator,{cost_per_impression=0.1})"},
      {"(heterogeneousimpressiongenerator,{gamma_scale=1,gamma_shape=3})",
         "(homogeneousimpressiongenerator,{poisson_lambda=3})"},
      {"(dataset,{})",
         "(independentoverlapdataset,{random_generator=1,universe_size=20000})",
         "(sequentiallycorrelatedoverlapdataset,{correlated_sets=all,order=original,random_generator=5,shared_prop=0.25})"}>>],
  data_single |-> [kind |-> "factorial", n |-> 80, levels |-> <<
      {"1"},
      {"10000",
         "20000",
         "30000",
         "40000",
         "50000"},
      {"0.9"},
      {"(fixedpricegenerator,{cost_per_impression=0.1})"},
      {"(heavytailedimpressiongenerator,{zeta_s=2.06539})",
         "(heavytailedimpressiongenerator,{zeta_s=2.1416})",
         "(heavytailedimpressiongenerator,{zeta_s=2.2662})",
         "(heavytailedimpressiongenerator,{zeta_s=2.8106})",
         "(heterogeneousimpressiongenerator,{gamma_scale=0.5,gamma_shape=1})",
         "(heterogeneousimpressiongenerator,{gamma_scale=11,gamma_shape=0.04545})",
         "(heterogeneousimpressiongenerator,{gamma_scale=2,gamma_shape=1})",
         "(heterogeneousimpressiongenerator,{gamma_scale=21.2222,gamma_shape=0.42408})",
         "(heterogeneousimpressiongenerator,{gamma_scale=4,gamma_shape=1})",
         "(heterogeneousimpressiongenerator,{gamma_scale=5,gamma_shape=0.4})",
         "(heterogeneousimpressiongenerator,{gamma_scale=9,gamma_shape=0.44444})",
         "(heterogeneousimpressiongenerator,{gamma_scale=9,gamma_shape=1})",
         "(homogeneousimpressiongenerator,{poisson_lambda=0.5})",
         "(homogeneousimpressiongenerator,{poisson_lambda=2})",
         "(homogeneousimpressiongenerator,{poisson_lambda=4})",
         "(homogeneousimpressiongenerator,{poisson_lambda=9})"},
      {"(dataset,{})"}>>],
  data_lhs |-> [kind |-> "latin", n |-> 10, levels |-> <<
      {"1",
         "2",
         "5"},
      {"100",
         "200",
         "300",
         "400",
         "500"},
      {"0.1",
         "0.5",
         "0.9"},
      {"(fixedpricegenerator,{cost_per_impression=0.1})"},
      {"(heavytailedimpressiongenerator,{zeta_s=2.1})",
         "(heterogeneousimpressiongenerator,{gamma_scale=0.5,gamma_shape=4})",
         "(homogeneousimpressiongenerator,{poisson_lambda=3})"},
      {"(dataset,{})",
         "(independentoverlapdataset,{random_generator=1,universe_size=50000})",
         "(sequentiallycorrelatedoverlapdataset,{correlated_sets=all,order=original,random_generator=1,shared_prop=1})"}>>],
  data_m3 |-> [kind |-> "latin", n |-> 100, levels |-> <<
      {"1",
         "10",
         "100",
         "2",
         "20",
         "5"},
      {"10000",
         "100000",
         "1000000",
         "10000000"},
      {"0.01",
         "0.1",
         "0.3",
         "0.5",
         "1"},
      {"(fixedpricegenerator,{cost_per_impression=0.1})"},
      {"(heavytailedimpressiongenerator,{zeta_s=2.5})",
         "(heavytailedimpressiongenerator,{zeta_s=5})",
         "(heterogeneousimpressiongenerator,{gamma_scale=0.5,gamma_shape=4})",
         "(heterogeneousimpressiongenerator,{gamma_scale=1,gamma_shape=4})",
         "(heterogeneousimpressiongenerator,{gamma_scale=2,gamma_shape=1})",
         "(heterogeneousimpressiongenerator,{gamma_scale=4,gamma_shape=1})",
         "(homogeneousimpressiongenerator,{poisson_lambda=2})",
         "(homogeneousimpressiongenerator,{poisson_lambda=5})"},
      {"(dataset,{})",
         "(independentoverlapdataset,1)",
         "(independentoverlapdataset,2)",
         "(independentoverlapdataset,3)",
         "(independentoverlapdataset,4)",
         "(sequentiallycorrelatedoverlapdataset,{correlated_sets=all,order=original,random_generator=6,shared_prop=0.75})",
         "(sequentiallycorrelatedoverlapdataset,{correlated_sets=all,order=random,random_generator=5,shared_prop=0.25})",
         "(sequentiallycorrelatedoverlapdataset,{correlated_sets=one,order=original,random_generator=7,shared_prop=0.25})",
         "(sequentiallycorrelatedoverlapdataset,{correlated_sets=one,order=random,random_generator=8,shared_prop=0.75})"}>>],
  trials_sample |-> [kind |-> "latin", n |-> 100, levels |-> <<
      {"(m3strategy,{},gamma_poisson,{},restricted_pairwise_union,{})",
         "(m3strategy,{},goerg,{},restricted_pairwise_union,{})"},
      TenthsPairs,
      {"(10,100000)",
         "(10,200000)",
         "(12,100000)",
         "(12,200000)",
         "(17,100000)",
         "(17,200000)"},
      {"(0.1,1e-07)",
         "(0.1,1e-08)",
         "(1,1e-07)",
         "(1,1e-08)"},
      {"1",
         "2",
         "3"},
      {"10",
         "20",
         "5"},
      {"(grid,{grid_size=5})",
         "(latin_hypercube,{npoints=100})",
         "(uniformly_random,{npoints=500})"}>>],
  trials_analysis |-> [kind |-> "factorial", n |-> 96, levels |-> <<
      {"(m3strategy,{},gamma_poisson,{},restricted_pairwise_union,{})",
         "(m3strategy,{},goerg,{},restricted_pairwise_union,{})"},
      {"(0.4,0.8,0.4,0.8,0.4,0.8,0.4)",
         "(0.6,0.6,0.6,0.6,0.6,0.6,0.6)"},
      {"(10,8000)"},
      {"(0.5,1e-09)",
         "(2,1e-09)"},
      {"1",
         "2",
         "3"},
      {"3",
         "6"},
      {"(latin_hypercube,{minimum_points_per_publisher=10,npublishers=7})",
         "(uniformly_random,{minimum_points_per_publisher=10,npublishers=7})"}>>],
  trials_m3 |-> [kind |-> "factorial", n |-> 288, levels |-> <<
      {"(m3strategy,{use_ground_truth_for_reach_curves=True},goerg,{},restricted_pairwise_union,{})",
         "(m3strategy,{},gamma_poisson,{},restricted_pairwise_union,{})",
         "(m3strategy,{},goerg,{},restricted_pairwise_union,{})"},
      {"(0.1,0.2,0.3,0.1,0.2,0.3,0.1)",
         "(0.2,0.2,0.2,0.2,0.2,0.2,0.2)"},
      {"(12,100000)"},
      {"(0.1,1e-07)",
         "(0.1,1e-09)",
         "(1,1e-07)",
         "(1,1e-09)"},
      {"1",
         "2",
         "3"},
      {"20",
         "5"},
      {"(latin_hypercube,{npublishers=7})",
         "(uniformly_random,{npublishers=7})"}>>],
  trials_single |-> [kind |-> "factorial", n |-> 225, levels |-> <<
      {"(single_publisher,{},gamma_poisson,{extrapolation_multiplier=2},none,{})",
         "(single_publisher,{},gamma_poisson,{},none,{})",
         "(single_publisher,{},goerg,{},none,{})",
         "(single_publisher,{},kinflated_gamma_poisson,{extrapolation_multiplier=2},none,{})",
         "(single_publisher,{},kinflated_gamma_poisson,{},none,{})"},
      {"(0.1)",
         "(0.2)",
         "(0.3)",
         "(0.4)",
         "(0.5)",
         "(0.6)",
         "(0.7)",
         "(0.8)",
         "(0.9)"},
      {"(10,100000)"},
      {"(0.05,1e-09)",
         "(0.1,1e-09)",
         "(0.15,1e-09)",
         "(0.2,1e-09)",
         "(100,1e-09)"},
      {"1"},
      {"10"},
      {"(grid,{grid_size=20})"}>>]]
=============================================================================
