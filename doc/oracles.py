"""Per property: (what is specified and judged / oracle), used by tools/design.py."""
O = {
"P01": "For every leaf of the choice tree the number of occupied subcolumns of each cell is compared with round(fraction x N) (zero where the mass is negligible); every subcolumn index must lie in range. Oracle: counting.",
"P02": "Per leaf: overlap of adjacent levels and of liquid with ice equals the maximum the counts (and convective columns) allow. Per tree: the exact distribution of outcomes (product of 1/n over the choices, as fractions) is invariant under swapping any two equivalent subcolumns.",
"P03": "Convective masks must be the leading round(fraction x N) subcolumns; per leaf of the stratiform choice tree no cell holds both where the counts fit. Oracle: counting and set disjointness.",
"P04": "Per leaf: counts by rounding; occupied = first those below precipitation, then cloudy, then others (set inclusion in that order); per tree: exact exchangeability of equivalent subcolumns.",
"P05": "Per leaf of the permutation x draw tree: mean over subcolumns = grid-box value, support = mask, number follows the class rule, no negatives; a watchdog decides termination.",
"P06": "Every schedule's dataset must be bit-identical to the serial one, stage by stage and for whole chains.",
"P07": "Differential: each column of every sequence of archetype columns equals the same column simulated alone (all output fields).",
"P08": "Every operation of every history is compared with the same operation on a fresh model brought to the same subcolumn state; inputs, options and tables must be unchanged (hashes).",
"P09": "Compositional: totals are recomputed from the code's own single-class runs (sums in linear units, power-weighted moments, attenuation by the summed extinction); presence = mask.",
"P10": "Explicit path integral over the layers between instrument and level, from the layer extinction the simulator reports; attenuated = unattenuated x exp(-2 eta tau) x gas transmission.",
"P11": "Power sum of the two echoes per cell; threshold Z_min + 20 log10(range / reference range) per level.",
"P12": "Weighted mean over the classes present with the table of ratios given; extinction mask from a scan of the optical depth profile from the instrument's side.",
"P13": "Point-in-region evaluation of each threshold curve (piecewise log-linear) per class; boolean tables for radar-sounding masks.",
"P14": "Independent scalar re-implementation of the published phase discrimination (per column, level by level); counting and mass sums for ratios.",
"P15": "Cells carry their coordinates as values; after each operation every cell is looked up at its coordinates. Whole simulations of regions equal those of the single columns.",
"P16": "Reference store of the contents that each file and the model must have after each operation; resumed simulations equal the originals.",
"P17": "Exact interval overlap of bins and layers (rational arithmetic), conservation of the integral, sentinel rules.",
"P18": "Counting per subcolumn with the documented edge convention.",
"P19": "Scalar reference per cell: bulk (effective radius or mu-lambda tables), single particle integrals over the size distribution, empirical Z-q relations, from published definitions; shares only table numbers with the code.",
"P20": "Scalar formulas (Ulaby/Straka gas absorption, Bucholtz-type molecular scattering) per cell; differential over all unit combinations for whole simulations.",
"P21": "Closed-form moments of the gamma distribution with the fields the code stores; numerical integration on a subset; dispersion rule per model.",
"P22": "Scalar trilinear interpolation of the P3 tables at each cell's own population, for bulk and single-particle quantities.",
"P23": "Independent re-reading of the table files per column and unit; physics closures (geometry of spheres, efficiency = cross section / area, extinction >= scattering, Rayleigh limit, integrals of single-particle tables = bulk tables); refractive index and frequency identities; ownership by overwriting one instrument's tables; band, viewing direction, detection limit, dielectric factor, multiple scattering factor, extinction limit and phase regions retyped from the instrument handbooks and papers.",
"P24": "Cells of synthetic files carry distinct values; after loading (and unstacking) each cell of each field is compared with the value and unit conversion expected at its coordinates; file hash before and after.",
"P25": "A second driver written from the documentation (`mc/props/p25.py: stages`) calls the public stages with explicit arguments; every field must agree, no field of a stage not asked for may appear.",
"P26": "Every field carries distinct values; the drawn artists are read back and the value shown at the time and height of every grid cell is compared with the dataset (means recomputed by scalar loops); model, arguments and later drawings must be unaffected.",
"P27": "A Mie series written for the check (Bohren & Huffman, log-derivative downward recurrence, scipy Bessel functions) evaluated particle by particle, permittivity models retyped from their papers with the measured values of Gunn and East as anchors; cross sections, absorption, ratio and size parameter follow from definitions.",
"P28": "A table of the parameters published for each scheme (papers in the code's comments and documentation), written per class and option; a bare Model configured from it and given the loaded fields must simulate the same output, and the attributes of the loaded model must hold the table's values.",
"P29": "Differential: the same operations on a model that never went through the file; microphysics parameters against the table of P28; kept instants by comparing datetimes.",
"P30": "The prerequisite relation of the stages (a table in the check) with its closure: permitted transitions must succeed, and all orders that reach the same set of stages must hold equal datasets (compared with the first order that got there and, at the end, with the documented order); other transitions must raise and leave every field bit-identical, or give what the stage gives in its place.",
"P31": "The simulation of the plain representation (float64, native order, in memory, hPa, K, m) of the same numbers, which are exactly representable in single precision: 1e-9 relative for exact representations, 5e-3 for single precision with equal masks; every input field bit-identical afterwards.",
}
