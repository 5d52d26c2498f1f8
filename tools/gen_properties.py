"""Writes /verif/properties.jsonl (single source of the property texts)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=["src/lambdapic/" + f for f in files],
                               mechanism=[dict(name=n, where="src/lambdapic/" + w) for n, w in mech])))

# ------------------------------------------------------------------ grid halo
prop("G01", "Guard-cell exchange reproduces the global grid in every patch",
     "After guard fields are synchronised, every guard cell of every patch that has a neighbour there (2D and 3D; faces, edges and corners; periodic wrap included) holds exactly the value of the interior cell of the neighbouring patch that represents the same global grid point. Interior cells, and guard cells outside a non-periodic domain edge, are left unchanged.",
     ["inputs", "configurations"], "every field content, every 2D/3D patch arrangement and boundary combination within the bound",
     "Tests compare a few hand-picked cells on one or two layouts; a swapped index on one edge or corner for one boundary/layout combination is not sampled.",
     ["core/patch/patch.py", "core/patch/sync_fields2d.c", "core/patch/sync_fields3d.c"],
     [("guard exchange", "core/patch/patch.py:Patches.sync_guard_fields"), ("2D copy kernel", "core/patch/sync_fields2d.c:sync_guard_fields_2d"), ("3D copy kernel", "core/patch/sync_fields3d.c:sync_guard_fields_3d")])
prop("G02", "Current and charge deposited in guard cells is reduced exactly once",
     "After currents are synchronised, each interior cell of jx, jy, jz and rho equals the sum of everything that was deposited for that global (periodically wrapped) grid point in any patch's interior or guard cells, with no contribution lost or counted twice. Guard cells facing a neighbour are cleared, so synchronising again changes nothing.",
     ["inputs", "configurations"], "every deposited content, every 2D/3D patch arrangement and boundary combination within the bound",
     "Tests use uniform or single-cell patterns on few layouts; a double count in one corner under one periodic/absorbing combination is not sampled.",
     ["core/patch/patch.py", "core/patch/sync_fields2d.c", "core/patch/sync_fields3d.c"],
     [("current reduction", "core/patch/patch.py:Patches.sync_currents"), ("2D kernel", "core/patch/sync_fields2d.c:sync_currents_2d"), ("3D kernel", "core/patch/sync_fields3d.c:sync_currents_3d")])
prop("G03", "Guard-cell exchange is independent of how patches are spread over ranks",
     "For every assignment of patches to MPI ranks, the guard exchange between ranks together with the exchange inside each rank leaves every patch with exactly the guard values that a single-process run would give. This holds in 2D and 3D.",
     ["inputs", "configurations", "schedules"], "every field content, every assignment of patches to ranks within the bound, any order of message delivery MPI allows",
     "MPI tests run one fixed layout on a fixed number of ranks.",
     ["core/mpi/mpi_manager.py", "core/mpi/sync_fields2d.c", "core/mpi/sync_fields3d.c"],
     [("cross-rank exchange", "core/mpi/mpi_manager.py:MPIManager.sync_guard_fields"), ("2D", "core/mpi/sync_fields2d.c"), ("3D", "core/mpi/sync_fields3d.c")])
prop("G04", "Current reduction is independent of how patches are spread over ranks",
     "For every assignment of patches to MPI ranks, the cross-rank current reduction together with the in-rank reduction gives each interior cell of jx, jy, jz and rho the same global sum as a single-process run, each contribution counted exactly once. This holds in 2D and 3D.",
     ["inputs", "configurations", "schedules"], "every deposited content, every assignment of patches to ranks within the bound",
     "MPI tests run one fixed layout on a fixed number of ranks.",
     ["core/mpi/mpi_manager.py", "core/mpi/sync_fields2d.c", "core/mpi/sync_fields3d.c", "core/patch/sync_fields2d.c", "core/patch/sync_fields3d.c"],
     [("cross-rank reduction", "core/mpi/mpi_manager.py:MPIManager.sync_currents"), ("2D", "core/mpi/sync_fields2d.c"), ("3D", "core/mpi/sync_fields3d.c")])
prop("G05", "Thread-parallel kernels give the same result under every thread schedule",
     "In the thread-parallel compiled kernels (field and current synchronisation, particle exchange, deposition, interpolation, pushing, sorting), no two loop iterations that may run on different threads access the same memory location with at least one write unless the access is atomic. Hence the result does not depend on the number of threads or how iterations are scheduled.",
     ["schedules", "configurations"], "every interleaving of loop iterations, for every patch arrangement within the bound",
     "A test run exhibits one schedule; a lost update appears only under a rare interleaving.",
     ["core/mpi/sync_fields2d.c", "core/mpi/sync_fields3d.c", "core/patch/sync_fields2d.c", "core/patch/sync_particles_2d.c", "core/current/cpu2d.c", "core/sort/cpu2d.c"],
     [("OpenMP worksharing loops", "core/mpi/sync_fields2d.c")])
prop("G06", "Every cross-rank message meets exactly one receive of the same size",
     "For every assignment of patches to ranks, every message posted during field, current and particle synchronisation is matched by exactly one receive on the destination rank with the same tag and length, no two in-flight messages between the same pair of ranks share a tag, every request is completed, and no tag exceeds the limit the MPI library reports. Buffers are not modified or released while a transfer is in flight.",
     ["schedules", "configurations"], "every assignment of patches to ranks within the bound (also two patches that are neighbours across more than one boundary), any delivery order",
     "Tests run one layout on a fixed number of ranks; mismatches deadlock or corrupt only for particular layouts.",
     ["core/mpi/sync_fields2d.c", "core/mpi/sync_fields3d.c", "core/mpi/sync_particles_2d.c", "core/mpi/sync_particles_3d.c"],
     [("tag construction", "core/mpi/sync_fields2d.c"), ("particle messages", "core/mpi/sync_particles_2d.c:fill_particles_from_boundary_2d_start")])
# ------------------------------------------------------------------ topology / balance
prop("T01", "Patch neighbour tables describe the global Cartesian (periodic) grid",
     "For every patch arrangement, boundary combination and distribution over ranks, the neighbour recorded across a boundary is the patch at the adjacent (periodically wrapped) grid position, absent exactly at non-periodic domain edges; the recorded owner rank and local slot of that neighbour are those of that patch. The relation is mutual: if A has B across a boundary, B has A across the opposite one.",
     ["configurations"], "every 2D/3D arrangement, boundary condition mix and rank assignment within the bound",
     "Tests check a few full single-process grids; partially owned (multi-rank) lists in 3D are not reached.",
     ["core/patch/patch.py"],
     [("neighbour index", "core/patch/patch.py:Patches.init_neighbor_index_2d"), ("neighbour rank", "core/patch/patch.py:Patches.init_neighbor_rank_3d"), ("local slot", "core/patch/patch.py:Patches.init_neighbor_ipatch_3d")])
prop("T02", "Repartitioning assigns every patch to exactly one rank and moves it intact",
     "For any partition proposed by the graph partitioner, the relabelling of parts to ranks is a permutation, every patch ends up owned by exactly one rank, every patch that changes owner is sent once by its old owner and received once by its new one with its fields and particles unchanged, and all ranks agree on the resulting ownership.",
     ["inputs", "configurations", "histories"], "every partition vector and overlap matrix within the bound",
     "Partitioner outputs seen in tests are few and benign.",
     ["core/mpi/load_balancer.py", "core/patch/metis.py"],
     [("relabelling", "core/patch/metis.py"), ("migration", "core/mpi/load_balancer.py:LoadBalancer")])
# ------------------------------------------------------------------ particles
prop("P01", "Particle exchange between patches conserves particles and finds the owner",
     "After particles are exchanged inside a process (2D and 3D), each particle that was alive and did not leave through an absorbing edge exists exactly once, with all of its attributes unchanged except a periodic coordinate shift by exactly the domain length, in the patch whose cell range contains its position. Particles leaving through an absorbing edge are removed, no other particle is created or lost, and existing residents are not overwritten.",
     ["inputs", "configurations"], "every particle position up to one patch width outside its patch, every live/dead pattern and boundary mix within the bound",
     "Tests push a handful of particles across chosen faces; diagonal moves combined with free-slot patterns and boundary mixes are not enumerated.",
     ["core/patch/patch.py", "core/patch/sync_particles_2d.c", "core/patch/sync_particles_3d.c"],
     [("exchange", "core/patch/patch.py:Patches.sync_particles"), ("2D", "core/patch/sync_particles_2d.c"), ("3D", "core/patch/sync_particles_3d.c")])
prop("P02", "Particle exchange across ranks conserves particles and finds the owner",
     "For every assignment of patches to ranks, particles that move to a patch owned by another rank arrive there exactly once, with all attributes unchanged except a periodic shift by the domain length, and vanish from the sender. Across all ranks the set of live particles after the exchange is the same as in a single-process run.",
     ["inputs", "configurations", "schedules"], "every particle position up to one patch width outside its patch, live/dead pattern and rank assignment within the bound",
     "MPI tests use one layout and a fixed particle pattern.",
     ["core/mpi/mpi_manager.py", "core/mpi/sync_particles_2d.c", "core/mpi/sync_particles_3d.c"],
     [("exchange", "core/mpi/mpi_manager.py:MPIManager.sync_particles"), ("2D", "core/mpi/sync_particles_2d.c"), ("3D", "core/mpi/sync_particles_3d.c")])
prop("P03", "Particle ids are unique among live particles of a species",
     "At any time no two live particles of one species carry the same id, across patches and ranks, whatever sequence of initialisation, growth, migration, pruning and particle creation by physics modules took place. An id does not change while its particle lives.",
     ["histories", "inputs"], "every bounded history of create/extend/migrate/kill/prune/emit operations",
     "Tests check ids right after initialisation or one extension, not over histories that reuse the slot of a migrated particle.",
     ["core/particles.py", "core/qed/radiation.py", "core/qed/pair_production.py", "core/patch/sync_particles_2d.c"],
     [("id generation", "core/particles.py:ParticlesBase._generate_ids"), ("slot reuse", "core/qed/inline.py:create_photon_inline_2d")])
prop("P04", "Growing and pruning particle storage never disturbs live particles",
     "Extending the storage leaves every existing entry unchanged and adds only dead slots; pruning keeps exactly the live particles, each with all attributes (and event flags) unchanged and consistently reordered.",
     ["inputs", "histories"], "every live/dead pattern and attribute content within the bound, any extend/prune sequence",
     "Tests use a couple of fixed patterns.",
     ["core/particles.py"],
     [("extend", "core/particles.py:ParticlesBase.extend"), ("prune", "core/particles.py:ParticlesBase.prune")])
prop("P05", "Sorting only permutes particles and the bucket bounds describe the cells",
     "Sorting a patch permutes the stored particles: every attribute and the dead flag of a slot move together, nothing is lost or duplicated. Afterwards bucket ranges partition the slots in order, and every live particle inside the patch lies in the range of the cell (or cell column) that contains it.",
     ["inputs"], "every particle position within the patch and a cell around it, every live/dead pattern within the bound, 2D and 3D, both numbering directions",
     "Tests sort random particles; boundary positions, dead slots in particular places and reversed numbering are not covered together.",
     ["core/sort/cpu2d.c", "core/sort/cpu3d.c", "core/sort/particle_sort.py"],
     [("2D sort", "core/sort/cpu2d.c"), ("3D sort", "core/sort/cpu3d.c"), ("driver", "core/sort/particle_sort.py")])
prop("P06", "Loaded macro-particles realise the requested density",
     "When a species is loaded, each cell whose density exceeds the threshold receives exactly the requested number of macro-particles, all inside that cell, with weights summing to density times cell volume; other cells receive none; and exactly as many slots are created as particles are placed. This holds in 2D and 3D.",
     ["inputs"], "every density and particles-per-cell value per cell within the bound",
     "Tests use uniform density and constant particles per cell.",
     ["core/patch/cpu.py", "core/patch/patch.py"],
     [("counting", "core/patch/cpu.py:get_num_macro_particles_2d"), ("placing", "core/patch/cpu.py:fill_particles_2d")])
# ------------------------------------------------------------------ kinetics
prop("K01", "Deposited charge and current satisfy the discrete continuity equation",
     "For every particle motion of less than one cell per step, the current deposited for that step and the change of the deposited charge density satisfy d(rho)/dt + div J = 0 on the staggered grid in every cell (including guard cells), in 2D and 3D.",
     ["inputs"], "every particle position, every displacement below one cell, within one patch",
     "Tests check totals or one trajectory; the identity must hold for every sub-cell position and every cell-crossing combination.",
     ["core/current/current_deposit.h", "core/current/cpu2d.c", "core/current/cpu3d.c"],
     [("2D deposit", "core/current/current_deposit.h"), ("3D deposit", "core/current/cpu3d.c")])
prop("K02", "Deposition carries exactly the charge and current of the live particles",
     "Depositing a patch adds to rho a total of q*w per cell volume for each live particle and to the current a total of q*w*v per cell volume along each axis, centred on the particle; dead particles add nothing and the contributions of several particles simply add up.",
     ["inputs"], "every particle position, momentum, weight and live/dead pattern within the bound, 2D and 3D",
     "Tests compare sums for random particles at loose tolerance.",
     ["core/current/current_deposit.h", "core/current/deposition.py"],
     [("2D/3D deposit", "core/current/current_deposit.h"), ("driver", "core/current/deposition.py")])
prop("K03", "Field gathering is exact for uniform and linear fields and stays in the patch",
     "The field seen by a particle is a weighted mean of grid values around it: uniform fields are reproduced exactly and linear fields give the value at the particle's position, taking each component's staggered grid location into account, also across the patch edge. Only the patch's own cells and guard cells are read; dead particles are skipped.",
     ["inputs"], "every particle position in the patch (and up to half a cell beyond) and every field content",
     "Tests use a few particles away from edges and smooth fields with tolerance.",
     ["core/interpolation/cpu2d.c", "core/interpolation/cpu3d.c"],
     [("2D gather", "core/interpolation/cpu2d.c"), ("3D gather", "core/interpolation/cpu3d.c")])
prop("K04", "The momentum push is the Boris rotation and keeps gamma consistent",
     "The momentum update is the relativistic Boris scheme: half electric kick, rotation about B that preserves |u| exactly, half electric kick; so in a pure magnetic field |u| is conserved and for zero fields u is unchanged. After every push the stored inverse Lorentz factor equals 1/sqrt(1+u^2), and dead particles are untouched.",
     ["inputs"], "every momentum, field, charge-to-mass ratio and time step",
     "Tests follow single trajectories to a tolerance.",
     ["core/pusher/boris.py", "core/pusher/cpu.py", "core/pusher/unified/unified_pusher_2d.c", "core/pusher/unified/unified_pusher_3d.c"],
     [("numba Boris", "core/pusher/boris.py:boris_inline"), ("C Boris", "core/pusher/unified/unified_pusher_2d.c")])
prop("K05", "Every live particle, photons included, moves ballistically in every dimension",
     "A position push over dt moves every live particle (of any species, photons included, in 2D and 3D) by exactly c*dt*u/gamma along each simulated axis, and leaves dead particles and momenta untouched.",
     ["inputs", "configurations"], "every momentum, dt, species kind, dimension and live/dead pattern",
     "Tests exercise the 2D electron path only.",
     ["core/pusher/pusher.py", "core/pusher/cpu.py"],
     [("position push", "core/pusher/pusher.py:PusherBase.push_position")])
prop("K06", "The fused particle step equals the staged interpolate-push-deposit pipeline",
     "Advancing particles with the fused (unified) kernel gives the same momenta, positions, charge and current densities as running interpolation, half position push, momentum push, half position push and deposition one after the other, in 2D and 3D.",
     ["inputs"], "every particle state and field content within the bound",
     "Tests compare both paths on random data at tolerance, in the configurations they chose.",
     ["core/pusher/unified/unified_pusher_2d.c", "core/pusher/unified/unified_pusher_3d.c", "simulation/simulation.py"],
     [("fused 2D", "core/pusher/unified/unified_pusher_2d.c"), ("fused 3D", "core/pusher/unified/unified_pusher_3d.c")])
# ------------------------------------------------------------------ Maxwell
prop("M01", "The field solver is the Yee scheme and keeps div B and Gauss's law",
     "One magnetic half step leaves the discrete divergence of B unchanged in every cell, and one electric step changes the discrete divergence of E by exactly -dt/eps0 div J, for arbitrary fields; each component advances by the centred curl of the other field. This holds in 2D and 3D.",
     ["inputs"], "every field and current content, grid spacing and time step",
     "Tests propagate one wave and check speed at tolerance.",
     ["core/maxwell/cpu.py", "core/maxwell/solver/solver.py"],
     [("E update", "core/maxwell/cpu.py:update_efield_2d"), ("B update", "core/maxwell/cpu.py:update_bfield_3d"), ("driver", "core/maxwell/solver/solver.py")])
prop("M02", "Field evolution does not depend on the domain decomposition",
     "Splitting the same periodic domain into any number of patches gives, after full field steps of the simulation loop, exactly the field values of the undivided domain at every grid point; a domain with absorbing layers likewise evolves the same in every decomposition.",
     ["inputs", "configurations"], "every field content, every decomposition within the bound",
     "Tests compare one decomposition to nothing or to one other.",
     ["core/maxwell/solver/solver.py", "core/patch/patch.py", "core/patch/sync_fields2d.c"],
     [("solver", "core/maxwell/solver/solver.py:MaxwellSolver2D"), ("sync", "core/patch/patch.py:Patches.sync_guard_fields")])
prop("M03", "Absorbing layers act only inside the layer and alike on every side and axis",
     "In a patch with absorbing layers, cells outside the layers evolve exactly as in vacuum, also where layers of several axes meet, and the layers on x, y and z, lower and upper side, are the same convolutional operator, with the same coefficient profile for equal cell sizes, up to relabelling the axes and mirroring. Layer memory only decays by itself, is never written outside its layer, and zero fields stay zero.",
     ["inputs", "configurations"], "every field content, layer thickness, side and axis within the bound",
     "Tests look at reflection of one pulse on selected sides.",
     ["core/boundary/cpml.py", "core/maxwell/solver/solver.py"],
     [("layer update", "core/boundary/cpml.py"), ("solver", "core/maxwell/solver/solver.py")])
# ------------------------------------------------------------------ collisions
prop("C01", "Collision pairing uses every live particle with the right weight",
     "Within a cell, pairing (like or unlike species) never uses a dead particle, never pairs a particle with itself, and includes every live particle when pairing is possible. With an odd number of like particles exactly one is used twice, with half weight each time; between unlike species each particle of the larger side is used once and the weights of each particle of the smaller side add up to one. Weights times the time-step correction, summed over the pairs, give the number of all possible pairs. Pairs never cross cells, and each is scattered with its own cell's screening length and its own patch's generator.",
     ["inputs"], "every live/dead pattern, bucket range and shuffle within the bound",
     "Tests use few sizes and one shuffle each.",
     ["core/collision/utils.py", "core/collision/cpu.py"],
     [("like pairs", "core/collision/utils.py:IntraPairingIterator"), ("unlike pairs", "core/collision/utils.py:InterPairingIterator")])
prop("C02", "A binary Coulomb collision conserves energy and momentum",
     "For two macro-particles of equal weight a collision conserves total momentum and total energy exactly for every pair of momenta, masses, charges and every random draw; with unequal weights only the lighter-weighted particle is certain to scatter and a particle that is not scattered is untouched. The stored inverse Lorentz factor stays consistent with the momentum.",
     ["inputs"], "every momentum pair, mass and charge ratio, random draw within the bound",
     "Tests check conservation statistically for sampled particles.",
     ["core/collision/cpu.py", "core/collision/utils.py"],
     [("kernel", "core/collision/cpu.py:collision_kernel"), ("frame change", "core/collision/utils.py:collision_data")])
prop("C03", "The collision screening length depends only on the current plasma state",
     "The screening length computed for a cell is a function of the particles presently in it: repeating the computation on the same particles gives the same value, species order does not matter, uncharged particles do not screen, and it is bounded below by the interparticle distance of the charged particles.",
     ["histories", "inputs"], "every particle content and number of repetitions within the bound",
     "Tests evaluate it once on fresh arrays.",
     ["core/collision/cpu.py", "core/collision/collision.py"],
     [("accumulation", "core/collision/cpu.py:debye_length_patches"), ("bound", "core/collision/cpu.py:constrain_debye_length_patches")])
# ------------------------------------------------------------------ QED
prop("Q01", "Photon emission creates one photon per event and conserves momentum",
     "For each emitting live electron exactly one photon is created in a free slot at the electron's position with the same weight; electron momentum before equals electron plus photon momentum after; Lorentz factors stay consistent. No other particle changes, no live photon is overwritten, and storage grows when free slots are short.",
     ["inputs"], "every event and live/dead pattern, momentum and energy fraction within the bound, 2D and 3D",
     "Tests use fixed event patterns in 2D.",
     ["core/qed/inline.py", "core/qed/cpu.py", "core/qed/radiation.py"],
     [("creation", "core/qed/inline.py:create_photon_inline_2d"), ("recoil", "core/qed/cpu.py:photon_recoil_patches"), ("driver", "core/qed/radiation.py:NonlinearComptonLCFA")])
prop("Q02", "Pair production turns each converting photon into one pair and removes it",
     "For each converting live photon exactly one electron and one positron are created at its position with its weight, their momenta add up to the photon's, their Lorentz factors are consistent, and the photon is removed. Nothing else changes and no live particle is overwritten.",
     ["inputs"], "every event and live/dead pattern, momentum and energy fraction within the bound, 2D and 3D",
     "Tests use fixed event patterns in 2D.",
     ["core/qed/inline.py", "core/qed/cpu.py", "core/qed/pair_production.py"],
     [("creation", "core/qed/inline.py:create_pair_inline_2d"), ("driver", "core/qed/pair_production.py:NonlinearPairProductionLCFA")])
prop("Q03", "Optical depth bookkeeping fires an event exactly when the depth is used up",
     "Each step a live particle's optical depth decreases by rate*dt/gamma; an event is flagged, with an energy fraction and a fresh depth, exactly when the depth is used up, and otherwise the flag and energy fraction are cleared. Dead particles and particles below the threshold never fire.",
     ["inputs"], "every depth, rate, Lorentz factor, live/dead pattern and random draw",
     "Random sampling tests check average rates only.",
     ["core/qed/optical_depth.py"],
     [("electron depth", "core/qed/optical_depth.py:update_tau_e"), ("photon depth", "core/qed/optical_depth.py:update_tau_gamma")])
# ------------------------------------------------------------------ simulation control
prop("S01", "A run performs exactly the requested steps, and time follows the step count",
     "Running for n steps (or until a time) advances the step counter by exactly that many steps, a simulation continued or resumed from a checkpoint performs exactly the remaining steps, and simulation time advances by dt per step.",
     ["histories", "inputs"], "every sequence of run calls and step requests within the bound",
     "Tests run one fixed number of steps.",
     ["simulation/simulation.py"],
     [("step accounting", "simulation/simulation.py:Simulation._handle_nsteps"), ("loop", "simulation/simulation.py:Simulation.run")])
prop("S02", "Callbacks fire exactly at the steps their interval selects",
     "A callback with an integer interval runs exactly at the steps divisible by it, one with a time interval runs once per elapsed interval of simulated time, and one with a predicate exactly when the predicate holds; each at its declared stage only.",
     ["histories", "inputs"], "every interval, step count and time step within the bound",
     "Tests try one or two intervals.",
     ["callback/callback.py", "simulation/simulation.py"],
     [("interval test", "callback/callback.py:Callback")])
prop("S03", "Checkpoint retention never deletes the newest checkpoints",
     "When only k checkpoints are to be kept, after each dump exactly the k most recent ones (by step number) remain and nothing else in the directory is removed, whatever the step numbers are.",
     ["histories", "inputs"], "every sequence of checkpoint steps within the bound",
     "Tests use small step numbers of equal width.",
     ["callback/restart.py"],
     [("retention", "callback/restart.py:RestartDump._gc_old_checkpoints")])
prop("S04", "Restoring a checkpoint reproduces the dumped state",
     "Loading a checkpoint yields the fields, particles (all attributes, dead flags, ids and id counters), patch layout, step number and random state that were dumped, so that the continued run is the run that was interrupted.",
     ["crash_points", "histories"], "every state content and dump step",
     "Tests compare one short run.",
     ["callback/restart.py", "core/particles.py", "core/fields.py"],
     [("dump/load", "callback/restart.py:RestartDump")])
prop("S05", "Automatic patch layout is always a valid decomposition",
     "The automatically chosen patch grid divides the cell counts exactly, gives every rank at least one patch, and keeps every patch large enough for the guard and absorbing layers; if no such layout exists an error is reported instead of an invalid layout.",
     ["inputs", "configurations"], "every cell count, layer thickness and rank count within the bound",
     "Tests try round numbers.",
     ["simulation/utils.py", "simulation/simulation.py"],
     [("2D", "simulation/utils.py:auto_patch_2d"), ("3D", "simulation/utils.py:auto_patch_3d")])
prop("S06", "Species keep distinct names and indices",
     "After species are added, all species names are pairwise distinct, names that were already unique are kept, and each species' index is its position, whatever names the user chose.",
     ["inputs"], "every list of names (with repeats and names that look generated) within the bound",
     "Tests use one or two duplicates.",
     ["simulation/utils.py", "simulation/simulation.py"],
     [("renaming", "simulation/utils.py:uniquify_species_names")])
prop("S07", "The moving window shifts the whole domain consistently",
     "When the window advances by one patch column, every patch position, neighbour relation, field and particle is that of the same global grid shifted by one patch width: kept patches keep their contents, the re-used column holds fresh fields and only particles inside it, and all pushers and gatherers work on the current arrays.",
     ["histories", "configurations"], "every window history within the bound",
     "Tests follow one shift with a uniform plasma.",
     ["callback/utils.py"],
     [("window", "callback/utils.py:MovingWindow")])
# ------------------------------------------------------------------ output
prop("O01", "Saved slices contain exactly the selected global cells",
     "For every numpy-style selection of ints and positive-step slices and every patch layout, the output array has the shape numpy would give (ints kept as length one), every output element is written by exactly one patch, and it is the value of the global cell that selection denotes; empty or out-of-range selections are rejected.",
     ["inputs", "configurations"], "every start, stop, step, index, domain and patch size within the bound",
     "Tests pick a few selections.",
     ["callback/hdf5.py"],
     [("normalisation", "callback/hdf5.py:_normalize_slice"), ("per-patch part", "callback/hdf5.py:_compute_patch_slice")])
prop("O02", "Assembled global fields equal the patch interiors, however patches are owned",
     "The global field array assembled for output or plotting holds, at every grid point of the requested plane, the interior value of the patch that owns it, for every patch layout and every assignment of patches to ranks; no plane inside the domain comes out empty.",
     ["inputs", "configurations"], "every field content, plane position, layout and rank assignment within the bound",
     "Tests gather one component from one layout on one rank.",
     ["callback/utils.py"],
     [("gather", "callback/utils.py:get_fields")])
prop("O03", "Extracted species density is that species' own charge divided by its charge",
     "The number density reported for a species is its own deposited charge density divided by its charge, unaffected by the other species and by the order in which species are deposited.",
     ["inputs", "configurations"], "every deposited content per species and species position within the bound",
     "Tests use one or two species.",
     ["callback/utils.py", "callback/hdf5.py"],
     [("extraction", "callback/utils.py:ExtractSpeciesDensity"), ("saving", "callback/hdf5.py:SaveSpeciesDensityToHDF5")])
prop("O04", "Particles loaded from a file are consistent and complete",
     "Loading particles from a file gives every patch exactly the file's particles that lie in it, each with the file's attributes, and every loaded particle has finite momentum and an inverse Lorentz factor equal to 1/sqrt(1+u^2), also when the file carries only positions and weights.",
     ["inputs", "configurations"], "every particle content and attribute subset within the bound",
     "Tests load files that contain every attribute.",
     ["callback/utils.py"],
     [("loading", "callback/utils.py:LoadParticles")])
ids = [p["id"] for p in P]
assert len(set(ids)) == len(ids)
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P))
