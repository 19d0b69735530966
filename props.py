"""Per-property settings of the driver (see run.py) and of the manifest (tools/gen_manifest.py).

must_observe: counters the workload has to reach for the verdict to count (a run that never reached them gives no verdict)."""


def P(technique, note, must, **kw):
    d = {"technique": technique, "note": note, "must_observe": must.split()}
    d.update(kw)
    return d


PROPS = {
    "C01": P("AddressSanitizer, UBSan and valgrind memcheck over hostile traffic with storage-bounds, queue and progress monitors",
             "Holds on the geometries, service combinations and frame sequences explored.",
             "start_configured start_arbitrary start_virgin sent overflowing_bursts frames rtr_frames extended_frames empty_frames short_frames long_dlc learn_switches produced responses long_sent long_received console presses serial_lines restarts resets events_handled requests_handled",
             valgrind=(1200, 12000)),
    "C02": P("online comparison of every reply with a map model over random command histories",
             "Holds on the histories explored; the model leaves open what the documentation leaves open (values of event variables never taught, re-teaching by a duplicated EV1).",
             "op_create op_update op_reteach_by_ev1 op_full op_unlearn op_unlearn_missing op_clear op_teach_index op_read_all_evs op_index_read_all_evs bursts table_audits"),
    "C03": P("online monitor of the learn state and of the stored event area over random bus histories",
             "Holds on the histories explored (single node, other nodes simulated).",
             "event_changes_in_learn restarts user_actions"),
    "C04": P("online comparison of handler calls with the matching rule over the stored table",
             "Holds on the tables and messages explored, in every table geometry the harness generates.",
             "not_events own_events_consumed own_events_not_consumed table_changes renegotiations"),
    "C05": P("online monitor of sent events against the stored table; guard bytes around the event area",
             "Holds on the histories explored; which number a new default event gets is left open, except that it must be unused.",
             "cleared commissioned default_events_created renamed renamed_to_existing renumbered restarts sends_without_room unlearned"),
    "C06": P("online comparison of request-handler calls and response frames with the stored table",
             "Holds on the tables and messages explored.",
             "not_requests renumbered table_changes"),
    "C07": P("online comparison of every reply with an array model; byte-wise audit of the whole storage",
             "Holds on the histories explored, for 0 to 255 node variables.",
             "bursts for_other_nodes overlong read_all reads reads_rejected restarts sets_rejected truncated"),
    "C08": P("differential monitor: recorded observations before and after a restart on the same storage image",
             "Holds on the histories explored.",
             "config_commands enumerated renumbered restarts restarts_in_setup went_uninitialised"),
    "C09": P("power-loss injection at every storage byte write of a command, offline check of the restarted module",
             "All cut points of each generated command are tried; commands and states are sampled.",
             "cut_points reissued usability_checks"),
    "C10": P("online checker of the documented state machine over bus and button histories",
             "Holds on the histories explored.",
             "numbers_set restarts setup_aborted_by_other setup_by_command setup_cancelled setup_from_normal setup_from_uninitialised setup_queries truncated_snn uninitialised_by_button uninitialised_by_command"),
    "C11": P("differential monitor: two instances, one of which also sees foreign traffic, must stay indistinguishable",
             "Holds on the histories explored.",
             "foreign_commands numbers_for_others responses_and_unknown teaching_of_others untaught_events"),
    "C12": P("online trace checker of enumeration windows with hostile reply timing",
             "Holds on the histories explored.",
             "enumerations non_triggers queries_during_enumeration restarts set_canid_during_enumeration"),
    "C13": P("monitor on every transmitted frame of diverse workloads (format, length by opcode, identity)",
             "Holds on every frame observed.",
             "long_messages sent_empty sent_rtr overlong_commands"),
    "C14": P("online comparison of every reply with the configured parameters and services",
             "Holds on the histories and configurations explored.",
             "esd index_used invalid_service learn_changes mode_changes name param_bad_index param_lists param_reads params_in_setup pnn service_lists"),
    "C15": P("online trace checker of heartbeat times and sequence numbers under irregular polling",
             "Holds on the schedules explored.",
             "restarts setups uninitialised"),
    "C16": P("online comparison of diagnostics with counts kept by the monitor from observed traffic",
             "Holds on the histories explored; transport counters are those of the simulated transport.",
             "all_codes all_services consume hidden invalid_codes invalid_service long_counts produce renumber teach truncated values large_tables"),
    "C17": P("round-trip and reference-parser comparison on generated and mutated text under ASan/UBSan",
             "Holds on the frames, texts and streams explored; remote requests with data pairs are left open.",
             "frames_sent invalid_frames round_trips streams two_ports"),
    "C18": P("online stream monitor comparing delivered bytes and statuses with the fragments put on the bus",
             "Holds on the interleavings explored; a lost run of fragments followed by one whose number has wrapped to 0, which reads as a header, is left open.",
             "complete fragments_delivered fragments_sent gaps_checked huge_messages interleaved_frames lost_runs_of_128 messages next_message_at_once refused_while_busy timeouts_checked"),
    "C19": P("offline check of delivered messages against sent ones over faulty simulated buses (loss, swap, duplicates, damage, stalls)",
             "Holds on the interleavings and faults explored; without CRC a lost tail joined to a following message whose header is lost cannot be told apart.",
             "contexts_exhausted crc_undecided end_to_end_cases fault_damaged fault_duplicated fault_lost fault_lost_header fault_lost_tail fault_none fault_stalled fault_swapped fault_damaged_to_crc_0 fragments_delivered fragments_sent gaps_checked memory_returned memory_returned_wrapped"),
    "C20": P("online comparison of the buffer with a bounded queue model; order monitor in recorder services",
             "Holds on the operation sequences explored.",
             "clears nested_puts overflows pops puts queued"),
    "C21": P("online checker of gestures and LED waveforms under irregular polling",
             "Holds on the gestures and polling schedules explored; behaviour exactly on a limit is left open.",
             "blinks coinciding indication_changes presses pulses"),
    "C22": P("differential run of every storage backend on device fakes against a byte-array model",
             "Holds on the operation sequences explored; devices are fakes with the documented behaviour of the chips.",
             "op_entry op_read op_read_block op_reopen op_reset op_write op_write_block second_bus",
             sources=["C22.cpp", ("C22_dx.cpp", "harness/platform/dx"), ("C22_due.cpp", "harness/platform/due"), ("C22_rp.cpp", "harness/platform/rp"), ("C22_esp.cpp", "harness/platform/rp")]),
    "C23": P("online monitor of console output and of the whole module state around typed characters",
             "Holds on the inputs explored.",
             "typed_during_traffic renegotiations"),
    "C24": P("online monitor of what is handed to the services and put on the bus for every frame kind",
             "Holds on the frames explored.",
             "answers empty empty_while_enumerating enumerations enumerations_completed extended hostile_enumerations long_dlc"),
    "C25": P("snapshot monitor around every truncation of every command in every mode",
             "Holds on the commands and states explored.",
             "error_replies mode_probes truncated"),
    "C26": P("differential monitor: one history played with and without the millisecond counter wrapping, traces compared event by event",
             "Holds on the histories and wrap positions explored.",
             "wraps_played events_near_wrap ev_sent ev_pin ev_long ev_action"),
    "C27": P("online comparison of stored state and bus answers with the documented defaults after every reset path; monitor of resets at start-up",
             "Holds on the states, layouts and reset paths explored.",
             "bus_resets early_resets sketch_resets virgin_starts configured_restarts foreign_resets defaults_checked commissioned_again"),
    "C28": P("online checker of identifiers, answers and storage of several real modules on one simulated bus",
             "Holds on the topologies, initial identifiers and polling schedules explored, with modules polled often enough to answer within the enumeration window.",
             "commands distinct_checks enumerations enum_commands events_delivered forced_clashes late_power_ups renumbered rounds tool_answers unlearnt values"),
    "C29": P("online comparison of frames, counters and settings on both sides of the transport over a model of the ACAN2515 driver",
             "Holds on the frames, settings and operation sequences explored; the driver library is a model.",
             "frames_sent frames_received frames_in send_failures settings resets module_messages long_dlc long_runs"),
    "C30": P("monitor attributing every storage write to its cause and checking it against the cells that cause owns",
             "Holds on the histories and layouts explored.",
             "actions causes_with_writes causes_without_write clears console enumeration_results messages nv_sets produced restarts teachings teachings_by_index unlearnings"),
    "C31": P("online comparison of frames, console and LED waveforms of the unchanged example sketches with a model of each sketch",
             "Holds on the histories explored; sketches run on models of the board, the CAN chip driver and the debounce library.",
             "audits commissioned default_events_recreated events_known events_unknown held_at_first_power_up led_blinking led_mode led_off led_on long_received long_received_longest long_sent power_cycles produced requests_answered resets_by_button short_presses taught_consumed taught_produced typed unlearned variables",
             include=["harness/examples", "checks"], sources=["C31.cpp", "C31_sketches.cpp"], examples=True),
    "C32": P("differential monitor: one batch of commands given one at a time and back to back, transcripts and storage compared",
             "Holds on the batches explored, which fit in the action queue.",
             "answers batches batches_after_listing batches_with_20_answers batches_near_capacity commands enumerations handler_calls"),
    "C33": P("online comparison of pin levels and answers of LED and Switch objects with a timeline model",
             "Holds on the command sequences and polling schedules explored.",
             "blink blinks duration_reset off on presses pulse pulses_ended releases reset toggle"),
}
UNCLAIMED = {}
