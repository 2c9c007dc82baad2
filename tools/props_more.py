P("P02", "Matrices and coefficient sets indexed by degrees of freedom return exactly what was stored",
  "A 6x6 matrix indexed by degrees of freedom (stiffness, mass, damping of discrete elements) returns for every pair of components the last value stored for it, zero if none was; a symmetric matrix returns the same value for (i,j) and (j,i), a diagonal one refuses a non-zero off-diagonal value and reads zero off the diagonal, and transposing, zeroing, exporting as diagonal, full columns or upper-triangular columns, the emptiness/zero/symmetric/diagonal/max-diagonal predicates and equality all agree with that 6x6 matrix. Sets of six coefficients (imposed displacement, released stiffness...) read back what was set, add and scale component by component leaving undefined components undefined, and report as defined exactly the components that have a value.",
  ["inputs"], "every matrix kind, every sequence of two stores at any components, every dense content, every real value; every coefficient 6-tuple, every component set and factor",
  "Tests store a few values in one matrix kind; the statement ranges over all component pairs, storage orders, kinds and real values.",
  ["Abstract/Dof.cpp", "Abstract/Dof.h"],
  [("DOFMatrix::addComponent/findComponent/transposed/asColumnsVector/asUpperTriangularColumnsVector/diagonal/is*", "Abstract/Dof.cpp"), ("DOFCoefs", "Abstract/Dof.cpp")],
  note="30 obligations discharged by z3 over all kinds, component pairs and real values; entry ordering of arbitrary-length histories is covered by two-store case split plus dense matrices; machine doubles as reals; std::map, vector under assumed library contracts. Real-code runs against an executable 6x6 specification back the proof.")

P("P03", "Coordinate systems map between local and global coordinates as the Nastran definitions say",
  "Vectors obey the usual algebra (sum, difference, scaling, dot and cross product, norm, normalisation, orthonormalisation against a direction). A coordinate system built from an origin and two directions, from three nodes, or from an orientation (two nodes and a vector or third node) has the right-handed orthonormal axes its definition prescribes; positions given in a Cartesian, cylindrical (r, theta in degrees, z) or spherical (r, theta, phi) system defined relative to another system are mapped to the global frame by composing the chain of systems; vectors are rotated likewise, the local map is the inverse of the global one, the Euler angles describe the same rotation, and a node given in a local system is stored with its global position. A system stored in the model is found again by its number and by its internal position, positions never change and are never shared.",
  ["inputs"], "every real origin, direction and coordinate; every chain of Cartesian parents; every kind of system; every sequence of reservations and additions (bounded for the store)",
  "Tests evaluate a couple of systems at a couple of points; the maps must be right for all axes, all points and any chain of definitions.",
  ["Abstract/CoordinateSystem.cpp", "Abstract/Utility.cpp", "Abstract/Mesh.cpp", "Abstract/MeshComponents.cpp"],
  [("VectorialValue algebra, normalized, orthonormalized", "Abstract/Utility.cpp / Abstract/Value.cpp"), ("Cartesian/Cylindrical/Spherical/OrientationCoordinateSystem", "Abstract/CoordinateSystem.cpp"), ("CoordinateSystemStorage, Mesh::addCoordinateSystem/findCoordinateSystem", "Abstract/CoordinateSystem.cpp, Abstract/Mesh.cpp")],
  note="57 obligations discharged by z3 over all reals; sin/cos are uninterpreted, matrix inversion is under contract (inverse of [ex ey ez]), the parent of a chained system is an arbitrary affine map. Euler angles and the storage of systems are covered by bounded real-code runs against an executable specification (750 cases quick), not proved. Curvilinear parents are outside the claim.")


P("P04", "The mesh keeps every node and cell exactly as declared, at a stable position",
  "Starting from any consistent mesh: declaring a node gives it a new position (or, if its number is already known or reserved, keeps its position, its allowed components and its part and replaces its coordinates and systems), registers exactly that number and disturbs no other node; a node numbered automatically receives a number nobody uses; reserving a node never duplicates it; looking a node up returns its number, coordinates, systems, components and part, with its global position obtained from its own positioning system; adding a cell of any type records its number, type, nodes in order, element, offset and orientation, registers it once and disturbs no other cell; replacing a rigid cell keeps its number and its group memberships; allowing components on a node adds exactly these; two nodes are in the same node part exactly when the same cell parts use them; counting and iterating visit every node and every cell of every type exactly once; unknown positions are refused.",
  ["inputs", "histories"], "every state of the registry satisfying its representation invariant, every number, coordinate, cell type and connectivity; histories of operations",
  "Tests build one small mesh; the statement is over every registry state and every sequence of declarations, redefinitions and reservations in any order.",
  ["Abstract/Mesh.cpp", "Abstract/MeshComponents.cpp", "Abstract/Mesh.h", "Abstract/MeshComponents.h"],
  [("Mesh::addNode/findOrReserveNode/findNode/allowDOFS/addCell/updateCell/findCell/generateSkinCell", "Abstract/Mesh.cpp"), ("NodeStorage, CellStorage, Node/CellIterator", "Abstract/MeshComponents.cpp")],
  note="365 obligations discharged by z3 from an arbitrary mesh state (symbolic number of nodes and cells, representation invariant assumed before and checked after each operation); the automatic-number loop is cut at its invariant; nodes of one cell are assumed distinct from the third on. Node parts, skin cells and iteration are covered by bounded histories on the real code against an executable model.")

P("P06", "Faces and corners of every element type are the geometric ones",
  "For every volume element type, the numbered faces are exactly the faces of the solid, each once, with its corner nodes in circular order, followed by its middle nodes between the right corners; the corner nodes are the vertices; the face designated by two nodes (or one) of the solid, as pressure and face cards do, is the one the Nastran rules designate, and naming a face by two nodes then finding the face from them gives the same face; a node outside the element is refused; the single face of a shell is the shell.",
  ["inputs"], "every element type, every face, every pair of its nodes, every node numbering",
  "Tests look at a face of one hexahedron; tables for the other types and the designation rules are unexercised.",
  ["Abstract/MeshComponents.cpp"],
  [("Cell::nodeIdsByFaceNum, two_nodeids_from_facenum, faceids_from_two_nodes, cornerNodeIds", "Abstract/MeshComponents.cpp")],
  note="14 obligations discharged by z3/evaluation over all types and all distinct node numbers; 56 concrete cases of the real code back the proof.")

P("P07", "Fields are read as the numbers, words and lists they spell",
  "Whatever its place on the card and the blanks around it, an integer field (sign and leading zeros included) is read as its value, and refused when it is out of the range of the machine; a real field is read as its value in every form Nastran accepts (with or without sign, digits before or after the point, exponent introduced by E, D, in either case, or by its sign alone); a word is read in upper case without its blanks; a blank or absent field gives the default when one is provided and is refused otherwise; a word where a number is expected, or a real number where an integer is expected, is refused; each reading consumes exactly one field and the end of the card is noticed after its last one. Lists of integers contain exactly the integers listed, every integer of a range (first THRU last, in whichever order), the steps of a range BY a step, and stop before the first field which is no integer; a range without beginning or end, or with a null step, is refused. The questions asked to the card (is the next field an integer, a number, THRU, BY, blank, are all the remaining ones blank) agree with what reading it gives, and skipping fields goes exactly that far, at most to the end of the card.",
  ["inputs"], "every integer of 1 to 9 digits with sign and zeros; reals of every form with symbolic digits and representative exponents; every blank pattern of up to four fields; every place of the field",
  "Tests read a few numbers in a few forms; the statement is over all digits and the whole grammar.",
  ["Nastran/NastranTokenizer.cpp"],
  [("NastranTokenizer::nextInt/nextDouble/nextString/nextInts/nextDoubles/isNext*/isEmptyUntilNextKeyword/skip*", "Nastran/NastranTokenizer.cpp")],
  note="All obligations discharged: the real tokenizer runs on texts whose numbers are symbolic integers of a given number of digits. boost::trim, split, lexical_cast, strspn under assumed contracts; decimal to binary rounding not verified; spans of THRU unrolled up to 4, lists up to 7; exponents 0, 3, 5, 12. Discharges, for these shapes, the tokenizer contract assumed by P09 to P12 and P14.")

P("P08", "A card has the same fields whatever the layout of its lines",
  "A card written in short fixed format (eight fields of eight columns), long fixed format (four fields of sixteen columns, marked by a star), free format (fields separated by commas) or tabulated, its text placed anywhere in the columns, continued on any number of lines by a plus sign, a star, blanks, a comma or a continuation name, short and long lines mixed, is read as its keyword in upper case and exactly its fields in order, the fields left out being blank, including those left out at the end of a line that is continued. Comment lines, comments at the end of a line and blank lines between cards change nothing; names given by preprocessor comments are kept wherever they are. Cards follow each other in any mixture of layouts, with Unix or Windows ends of lines, with or without a last end of line; a card that claims a continuation the file does not have is read as it is, and after the last card the end of the file is reported.",
  ["inputs"], "cards of 1 to 24 fields, every continuation style, every digit of every field, a representative list of widths, places and blank patterns; sequences of three cards in every order",
  "Tests read a dozen lines; a shifted column or a lost continuation silently gives every following field another meaning.",
  ["Nastran/NastranTokenizer.cpp"],
  [("NastranTokenizer::nextLine, parseBulkSectionLine, getLineType, splitFixedFormat, splitFreeFormat, replaceTabs, readLineSkipComment", "Nastran/NastranTokenizer.cpp")],
  note="All obligations discharged on the real tokenizer over texts whose fields are symbolic numbers of given widths. Streams, boost::split and tokenizer under assumed contracts. Lines up to three per card. Finding: a short line with less than eight fields continued by a line starting with a plus sign (no continuation name) is not completed with blanks (required by a test of the suite).")

P("P09", "Each load card creates exactly the load its Nastran definition prescribes",
  "Reading a load or table card (FORCE, MOMENT, FORCE1, FORCE2, GRAV, RFORCE, PLOAD, PLOAD1, PLOAD2, PLOAD4 on shells and on faces of solids, LOAD, DLOAD, LSEQ, TEMP, SLOAD, DAREA, SPCD, RLOAD1, RLOAD2, DELAY, DPHASE, TABLED1, TABLES1) with any field values, optional fields blank or given, creates in the model exactly the loadings, load sets, combinations and tables the card defines and nothing else: the right kind of load, acting on exactly the given nodes or cells, with force, moment, pressure, temperature, displacement or acceleration equal to the given magnitude times the given direction, in the given coordinate system, with the documented default for every blank field, and registered in the load set of the given number and type. The order in which cards appear does not matter.",
  ["inputs"], "every value of every field; every blank/given pattern of optional fields; one to four groups of repeated fields",
  "Tests read one example of a few load cards; the statement ranges over all values and blank patterns of every field of each card.",
  ["Nastran/NastranParser.cpp", "Nastran/NastranParser_param.cpp", "Abstract/Loading.cpp", "Abstract/Model.cpp"],
  [("NastranParser::parseFORCE … parseTABLES1 (24 cards), parseBULKSection", "Nastran/NastranParser.cpp"), ("constructors of Loading, LoadSet, Value classes; Model::add, getOrCreateLoadSet", "Abstract/Loading.cpp, Abstract/Model.cpp")],
  note="121 obligations discharged by z3 through the real card readers, constructors and model registries, for all field values; the tokenizer is used through its contract (fields blank / integer / real / word), repeated groups are unrolled 1 to 4 times; machine doubles as reals; 290 random decks of the real code back the proof. Known findings: loads on elements whose card comes later.")

P("P10", "Each constraint card creates exactly the constraint its Nastran definition prescribes",
  "Reading a constraint or contact card (SPC, SPC1, SPCADD, MPC, RBAR, RBAR1, RBE2, RBE3, CRIGD1, BLSEG, BSSEG, BCBODY, BCONP with BFRIC, BSCONP, BCTABLE) with any field values creates exactly the constraints the card defines and nothing else: SPC and SPC1 fix exactly the listed components of exactly the listed points (ranges included) to the given value, zero when blank; MPC holds the sum of exactly the listed coefficient times component products to zero, several components of one point included; rigid elements tie exactly the listed points, with the reference point and components given, all six when blank; RBE3 keeps for each point the components and weight of its own group; a contact pairs exactly the surfaces or bodies its card names, slave and master in their places, with the friction given. Each constraint belongs to exactly the set named by its card (rigid elements to the set that always applies), and a union card stands for all the constraints of its sets, in whatever order the cards appear.",
  ["inputs"], "every value of every field; every component combination of a representative list; one to seven points per card",
  "Tests read one or two instances of some constraint cards; the statement ranges over all numbers, values, components and list lengths.",
  ["Nastran/NastranParser.cpp", "Abstract/Constraint.cpp", "Abstract/Model.cpp"],
  [("NastranParser::parseSPC/SPC1/SPCADD/MPC/RBAR/RBAR1/RBE2/RBE3/CRIGD1/BLSEG/BSSEG/BCBODY/BCTABLE/BCONP/BFRIC/BSCONP, parseBULKSection", "Nastran/NastranParser.cpp"), ("constructors and members of Constraint classes, ConstraintSet::getConstraints, Model::add/addConstraintIntoConstraintSet", "Abstract/Constraint.cpp, Abstract/Model.cpp")],
  note="74 obligations discharged by z3 through the real card readers, constraint constructors and model registries, for all field values; tokenizer used through its contract; lists unrolled up to 7 points (longer ones only in increasing or decreasing order); 239 random decks of the real code back the proof.")

P("P11", "Each material or property card creates exactly the material or property its Nastran definition prescribes",
  "Reading a material card (MAT1, MAT8, MATHP, MATS1) records for the material of that number exactly the given constants: for MAT1 a missing one of E, G, NU is derived from the two others by E = 2(1+NU)G (zero when underdetermined), constants left blank stay undefined or take their documented default, several cards of one material complete it, laws that are not supported are refused. Reading a property card (PSHELL, PBAR, PBARL, PBEAML, PBEAM, PROD, PSOLID, PLSOLID, PCOMP, PBUSH, PELAS, PDAMP, PVISC) creates exactly one property per number, with the area, inertias (I1 about z, I2 about y), torsion constant, shear flexibility, section dimensions in the order of the card, thickness, non-structural mass, stress recovery points, stiffness and damping per component given by its fields, defaults for the blank ones, the formulation (beam, truss, full or reduced solid integration) the card calls for, the layers of a laminate in order with repeated values for blank fields and the offset of its middle surface, and refers to exactly the materials named by the card.",
  ["inputs"], "every value of every field; every blank/given pattern of a representative list; every section type; one to four groups of repeated fields",
  "Tests read one instance of some cards; the statement ranges over all values and all given/blank patterns.",
  ["Nastran/NastranParser.cpp", "Abstract/Material.cpp", "Abstract/Element.cpp", "Abstract/Model.cpp"],
  [("NastranParser::parseMAT1 … parsePVISC (17 cards), parseBULKSection", "Nastran/NastranParser.cpp"), ("Material::addNature, Nature and ElementSet constructors, DOFMatrix, Model::add/getOrCreateMaterial", "Abstract/Material.cpp, Abstract/Element.cpp, Abstract/Model.cpp")],
  note="Obligations discharged by z3 through the real card readers, constructors and model registries, for all field values; tokenizer used through its contract; repeated groups unrolled 1 to 4 times; machine doubles as reals; random decks of the real code back the proof. The structural damping field GE of PELAS/PBUSH, the exact section of PBARL TUBE and the pseudo-inertia of PROD are outside the claim.")

P("P12", "Each node, element, coordinate system and set card creates exactly the mesh its Nastran definition prescribes, whatever the order of the cards",
  "Reading GRID (with GRDSET anywhere in the deck), SPOINT, the solid, shell and line element cards (CTETRA, CPENTA, CHEXA, CPYRAM with all mid-side variants, CTRIA3/6/R, CQUAD4/8/R, CQUAD, CROD, CONROD, CBAR, CBEAM), the discrete elements (CBUSH, CELAS1/2/4, CDAMP1, CVISC, CGAP, CMASS2, CONM1, CONM2), the coordinate systems (CORD2R/C/S, CORD1R) and the sets (SET1, SET3, BSURF) with any field values creates exactly the points, elements and systems they define and nothing else: each point with its coordinates, position and displacement systems and permanent constraints (blank fields from GRDSET); each element with its number, its shape, its nodes in the order of its card, its orientation or coordinate system, its offset and its property, scalar elements with value, components and a fixed ground point when one end is left out; masses with their symmetric matrix and offset, products of inertia with the right sign and axes; frames with the axes of their definition points. Every property has exactly the elements that name it and every set or surface exactly the elements and points it lists, in whichever order the cards come and even when a set, a property and a surface share a number.",
  ["inputs"], "every value of every field; every blank/given pattern of a representative list; all orders of the related cards of a list; frames of three orientations with any origin and lengths",
  "Tests read one deck of some cards, in one order; the statement ranges over all numbers and values and over orders of the cards.",
  ["Nastran/NastranParser.cpp", "Nastran/NastranParser_geometry.cpp", "Abstract/Mesh.cpp", "Abstract/MeshComponents.cpp", "Abstract/Element.cpp"],
  [("NastranParser::parseGRID/GRDSET/SPOINT, parseElem, parseShellElem, parseOrientation, parseCBAR … parseCONM2, parseCORD*, parseSET1/3, parseBSURF, addProperty, parseBULKSection", "Nastran/NastranParser_geometry.cpp, Nastran/NastranParser.cpp"), ("Mesh::addNode/addCell/createCellGroup/findOrReserve*/addOrFindOrientation, CellContainer, ElementSet constructors, CoordinateSystemStorage", "Abstract/Mesh.cpp, Abstract/MeshComponents.cpp, Abstract/Element.cpp")],
  note="193 obligations discharged by z3 through the real card readers, mesh store and model registries, for all field values; tokenizer used through its contract; VectorialValue::normalized through the contract P03 proves; lists unrolled up to 9; random decks of the real code back the proof. A GRDSET card after the GRID cards is outside the claim.")

P("P13", "The analyses are the ones the executive and case control sections ask for, with the methods, loads, constraints and outputs they select",
  "Reading the executive and case control sections gives exactly one analysis per subcase (one in all when there is none), in order, each following the previous one, of the kind the solution sequence prescribes (linear static, real and complex modes, buckling whose first subcase is the preload, nonlinear static, direct and modal frequency response), numbered after its subcase; selections above the subcases apply to all subcases and a selection in a subcase supersedes them there only; each analysis refers to exactly the single point and multipoint constraint sets, contact sets, load, dynamic load and load set the selections name, to the eigenvalue, complex eigenvalue, frequency, damping and nonlinear parameters they name, to the static subcase STATSUB names, with residual vectors when asked; requests that name a set give one output on that set in the form asked, other output requests and titles select nothing; SUBCOM combines the preceding subcases each with its own coefficient; a SET of the case control holds exactly the integers it lists, ranges included; in a design optimisation each subcase is of the kind ANALYSIS names, or its selections call for. Every method card (EIGR, EIGRL, EIGB, EIGC, FREQ, FREQ1, FREQ3, FREQ4, TABDMP1, NLPARM) creates under its number exactly the search, excitation, damping or strategy its fields define, with the documented defaults for the blank ones.",
  ["inputs"], "every set, subcase and method number and coefficient; solution sequences by number and by name; every given/blank pattern of a representative list; up to two ordinary subcases, three combined; three writings of a command",
  "Tests read a few decks; the statement ranges over all numbers, over which selection is given where, and over the ways of writing it.",
  ["Nastran/NastranParser.cpp", "Nastran/NastranTokenizer.cpp", "Abstract/Analysis.cpp", "Abstract/Objective.cpp"],
  [("NastranParser::parseExecutiveSection/addSet/parseSubcase/parseSubcom/addAnalysis/addCombinationAnalysis/autoSubcaseAnalysis, parseEIGR … parseNLPARM", "Nastran/NastranParser.cpp"), ("NastranTokenizer::nextLine/splitFree/nextString/nextInt in the executive section", "Nastran/NastranTokenizer.cpp"), ("Analysis, Objective, ObjectiveSet, Value constructors and registries", "Abstract/Analysis.cpp, Abstract/Objective.cpp, Abstract/Model.cpp")],
  note="Obligations discharged by z3; for the case control the real tokenizer and the real parser run on the text of the deck, its numbers being symbolic (their digits stand for any nonnegative integer), so nothing is assumed of the tokenizer there; the method cards use the tokenizer through its contract. Random decks of the real code back the proof. Options of a same command that differ between the two levels (METHOD above, METHOD(STRUCTURE) below) are outside the claim.")

P("P14", "The code_aster command file says of each element, node and analysis what the deck says",
  "Translating a model to code_aster writes a command file that is well formed (every command parses, every concept is defined before it is used and named once, every node, element and group it names is in the mesh) and that gives code_aster exactly the mechanical problem of the deck: every element gets the modelisation of its property (beam, truss, shell, solid, discrete) and exactly its material with the constants given; every mass is multiplied by PARAM WTMASS; beams their area, inertias, torsion, shear coefficients, section dimensions and orientation; shells and laminates their thickness, layers and offset; non-structural mass; springs, bushings, dampers, masses and matrices given term by term (DMIG) their stiffness, damping or mass matrix on exactly the named components; each static analysis applies exactly the constraints of its sets and exactly the loads of its sets, scaled and summed, in the global frame (forces, moments, pressures with their direction, line loads, gravity, rotation, imposed displacements, components fixed in a local frame, rigid links, linear relations, interpolation elements with their components and weights); each nonlinear analysis the contacts and gaps of its sets, between exactly their surfaces, with their direction, gap and friction; modal and buckling searches have their norm, band, number and matrices with their constraints (geometric stiffness from the preload); harmonic responses, direct or on a modal base (static modes with residual vectors), have their matrices, excitations (nodal amplitudes, static loads or those of LSEQ, each with its own factors, amplitude function and constant phase), frequencies and damping (of the modes, or the dampers and for direct responses the structural damping of PARAM G and W3), and share modes only with an analysis of the same constraints and search; combinations and nonlinear steps refer to the results, coefficients, loads, steps and initial states of their subcases.",
  ["inputs"], "every value of every field; a deck per kind of element, load, constraint and analysis, with its variants",
  "The tests compare a few written files with stored ones or only check that they are written; the statement ranges over all values, and reads the written file for what it means.",
  ["Aster/AsterWriter.cpp", "Aster/AsterModel.cpp", "Abstract/Model.cpp", "Abstract/Element.cpp", "Abstract/Loading.cpp", "Abstract/Constraint.cpp"],
  [("AsterWriter::writeComm and all it calls (writeAffeModele, writeMaterials, writeAffeCaraElem, writeAffeCharMeca, writeSPC, writeLMPC, writeRBE3, writeNodalForce, writeAssemblage, writeCalcFreq, writeAnalysis …)", "Aster/AsterWriter.cpp"), ("Model::finish (emulations, splits, removal of ineffective parts)", "Abstract/Model.cpp")],
  note="Obligations discharged by z3: the real parser, Model::finish and writer run on each deck with symbolic numbers; the written text is parsed as Python and resolved to what it says of each element and node. The mesh is the one of the model (the MED file is outside: HDF5 library); bulk fields come through the tokenizer contract; matrix inversion by its contract; machine doubles as reals. Number formatting of the stream is taken as exact. Finding: an SPCD on a node with a displacement frame is applied in the global frame. Outside the claim: frequency-dependent phase and delay of RLOAD, FREQ3, output requests.")
