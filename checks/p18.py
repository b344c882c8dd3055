"""P18: capability registers follow the specified layout and access rules."""
import random
import hypothesis.strategies as st
import simcore  # noqa: F401
from cocotbext.pcie.core.endpoint import Endpoint
from cocotbext.pcie.core.caps import PmCapability, PcieCapability, MsiCapability, MsixCapability, AerExtendedCapability, PcieExtendedCapability
from tlpgen import mix, many
from runner import Part, check

PROPERTY = "P18"
ASSUMPTIONS = ["attributes hold values that fit their field", "fields the models do not have read as zero"]


def F(reg, *fields):
    """(attr, lsb, width, access) rows; access in ro rw w1c."""
    return [(a, reg, lsb, w, acc) for a, lsb, w, acc in fields]


def bits(reg, acc, *named):
    return [(a, reg, b, 1, acc) for a, b in named]


PM = F(0, ("version", 16, 3, "ro"), ("pme_clock", 19, 1, "ro"), ("immediate_readiness_on_return_to_d0", 20, 1, "ro"),
       ("device_specific_initialization", 21, 1, "ro"), ("aux_current", 22, 3, "ro"), ("d1_support", 25, 1, "ro"), ("d2_support", 26, 1, "ro"),
       ("pme_support", 27, 5, "ro")) + \
    F(1, ("power_state", 0, 2, "rw"), ("no_soft_reset", 3, 1, "ro"), ("pme_enable", 8, 1, "rw"), ("data_select", 9, 4, "rw"),
      ("data_scale", 13, 2, "ro"), ("pme_status", 15, 1, "w1c"), ("pm_data", 24, 8, "ro"))

PCIE = F(0, ("pcie_capability_version", 16, 4, "ro"), ("pcie_device_type", 20, 4, "ro"), ("pcie_slot_implemented", 24, 1, "ro"), ("interrupt_message_number", 25, 5, "ro")) + \
    F(1, ("max_payload_size_supported", 0, 3, "ro"), ("phantom_functions_supported", 3, 2, "ro"), ("extended_tag_supported", 5, 1, "ro"),
      ("endpoint_l0s_acceptable_latency", 6, 3, "ro"), ("endpoint_l1_acceptable_latency", 9, 3, "ro"), ("role_based_error_reporting", 15, 1, "ro"),
      ("captured_slot_power_limit_value", 18, 8, "ro"), ("captured_slot_power_limit_scale", 26, 2, "ro"), ("function_level_reset_capability", 28, 1, "ro")) + \
    F(2, ("correctable_error_reporting_enable", 0, 1, "rw"), ("non_fatal_error_reporting_enable", 1, 1, "rw"), ("fatal_error_reporting_enable", 2, 1, "rw"),
      ("unsupported_request_reporting_enable", 3, 1, "rw"), ("enable_relaxed_ordering", 4, 1, "rw"), ("max_payload_size", 5, 3, "rw"),
      ("extended_tag_field_enable", 8, 1, "rw"), ("phantom_functions_enable", 9, 1, "rw"), ("aux_power_pm_enable", 10, 1, "rw"),
      ("enable_no_snoop", 11, 1, "rw"), ("max_read_request_size", 12, 3, "rw"),
      ("correctable_error_detected", 16, 1, "w1c"), ("nonfatal_error_detected", 17, 1, "w1c"), ("fatal_error_detected", 18, 1, "w1c"),
      ("unsupported_request_detected", 19, 1, "w1c"), ("aux_power_detected", 20, 1, "ro"), ("transactions_pending", 21, 1, "ro"),
      ("emergency_power_reduction_detected", 22, 1, "w1c")) + \
    F(3, ("max_link_speed", 0, 4, "ro"), ("max_link_width", 4, 6, "ro"), ("aspm_support", 10, 2, "ro"), ("l0s_exit_latency", 12, 3, "ro"),
      ("l1_exit_latency", 15, 3, "ro"), ("clock_power_management", 18, 1, "ro"), ("surprise_down_error_reporting_capability", 19, 1, "ro"),
      ("data_link_layer_link_active_reporting_capable", 20, 1, "ro"), ("link_bandwidth_notification_capability", 21, 1, "ro"),
      ("aspm_optionality_compliance", 22, 1, "ro"), ("port_number", 24, 8, "ro")) + \
    F(4, ("aspm_control", 0, 2, "rw"), ("read_completion_boundary", 3, 1, "rw"), ("link_disable", 4, 1, "rw"), ("common_clock_configuration", 6, 1, "rw"),
      ("extended_synch", 7, 1, "rw"), ("enable_clock_power_management", 8, 1, "rw"), ("hardware_autonomous_width_disable", 9, 1, "rw"),
      ("link_bandwidth_management_interrupt_enable", 10, 1, "rw"), ("link_autonomous_bandwidth_interrupt_enable", 11, 1, "rw"),
      ("drs_signalling_control", 14, 2, "rw"), ("current_link_speed", 16, 4, "ro"), ("negotiated_link_width", 20, 6, "ro"), ("link_training", 27, 1, "ro"),
      ("slot_clock_configuration", 28, 1, "ro"), ("data_link_layer_link_active", 29, 1, "ro"), ("link_bandwidth_management_status", 30, 1, "w1c"),
      ("link_autonomous_bandwidth_status", 31, 1, "w1c")) + \
    F(5, ("attention_button_present", 0, 1, "ro"), ("power_controller_present", 1, 1, "ro"), ("mrl_sensor_present", 2, 1, "ro"),
      ("attention_indicator_present", 3, 1, "ro"), ("power_indicator_present", 4, 1, "ro"), ("hot_plug_surprise", 5, 1, "ro"), ("hot_plug_capable", 6, 1, "ro"),
      ("slot_power_limit_value", 7, 8, "ro"), ("slot_power_limit_scale", 15, 2, "ro"), ("electromechanical_interlock_present", 17, 1, "ro"),
      ("no_command_completed_support", 18, 1, "ro"), ("physical_slot_number", 19, 13, "ro")) + \
    F(6, ("attention_button_pressed_enable", 0, 1, "rw"), ("power_fault_detected_enable", 1, 1, "rw"), ("mrl_sensor_changed_enable", 2, 1, "rw"),
      ("presence_detect_changed_enable", 3, 1, "rw"), ("command_completed_interrupt_enable", 4, 1, "rw"), ("hot_plug_interrupt_enable", 5, 1, "rw"),
      ("attention_indicator_control", 6, 2, "rw"), ("power_indicator_control", 8, 2, "rw"), ("power_controller_control", 10, 1, "rw"),
      ("electromechanical_interlock_control", 11, 1, "any"), ("data_link_layer_state_changed_enable", 12, 1, "rw"), ("auto_slot_power_limit_disable", 13, 1, "rw"),
      ("attention_button_pressed", 16, 1, "w1c"), ("power_fault_detected", 17, 1, "w1c"), ("mrl_sensor_changed", 18, 1, "w1c"),
      ("presence_detect_changed", 19, 1, "w1c"), ("command_completed", 20, 1, "w1c"), ("mrl_sensor_state", 21, 1, "ro"), ("presence_detect_state", 22, 1, "ro"),
      ("electromechanical_interlock_status", 23, 1, "ro"), ("data_link_layer_state_changed", 24, 1, "w1c")) + \
    F(7, ("system_error_on_correctable_error_enable", 0, 1, "rw"), ("system_error_on_non_fatal_error_enable", 1, 1, "rw"),
      ("system_error_on_fatal_error_enable", 2, 1, "rw"), ("pme_interrupt_enable", 3, 1, "rw"), ("crs_software_visibility_enable", 4, 1, "rw"),
      ("crs_software_visibility", 16, 1, "ro")) + \
    F(8, ("pme_requester_id", 0, 16, "ro"), ("pme_status", 16, 1, "w1c"), ("pme_pending", 17, 1, "ro")) + \
    F(9, ("completion_timeout_ranges_supported", 0, 4, "ro"), ("completion_timeout_disable_supported", 4, 1, "ro"), ("ari_forwarding_supported", 5, 1, "ro"),
      ("atomic_op_forwarding_supported", 6, 1, "ro"), ("atomic_op_32_bit_completer_supported", 7, 1, "ro"), ("atomic_op_64_bit_completer_supported", 8, 1, "ro"),
      ("cas_128_bit_completer_supported", 9, 1, "ro"), ("no_ro_enabled_pr_pr_passing", 10, 1, "ro"), ("ltr_mechanism_supported", 11, 1, "ro"),
      ("tph_completer_supported", 12, 2, "ro"), ("obff_supported", 18, 2, "ro"), ("extended_fmt_field_supported", 20, 1, "ro"),
      ("end_end_tlp_prefix_supported", 21, 1, "ro"), ("max_end_end_tlp_prefix", 22, 2, "ro"), ("emergency_power_reduction_supported", 24, 2, "ro"),
      ("emergency_power_reduction_initialization_required", 26, 1, "ro"), ("frs_supported", 31, 1, "ro")) + \
    F(10, ("completion_timeout_value", 0, 4, "rw"), ("completion_timeout_disable", 4, 1, "rw"), ("ari_forwarding_enable", 5, 1, "rw"),
      ("atomic_op_requester_enable", 6, 1, "rw"), ("atomic_op_egress_blocking", 7, 1, "rw"), ("ido_request_enable", 8, 1, "rw"),
      ("ido_completion_enable", 9, 1, "rw"), ("ltr_mechanism_enable", 10, 1, "rw"), ("emergency_power_reduction_request", 11, 1, "rw"),
      ("ten_bit_tag_requester_enable", 12, 1, "rw"), ("obff_enable", 13, 2, "rw"), ("end_end_tlp_prefix_blocking", 15, 1, "rw")) + \
    F(11, ("supported_link_speeds", 1, 7, "ro"), ("crosslink_supported", 8, 1, "ro"), ("lower_skp_os_generation_supported_speeds", 9, 7, "ro"),
      ("lower_skp_os_reception_supported_speeds", 16, 7, "ro"), ("retimer_presence_detect_supported", 23, 1, "ro"),
      ("two_retimers_presence_detect_supported", 24, 1, "ro"), ("drs_supported", 31, 1, "ro")) + \
    F(12, ("target_link_speed", 0, 4, "rw"), ("enter_compliance", 4, 1, "rw"), ("hardware_autonomous_speed_disable", 5, 1, "rw"),
      ("selectable_deemphasis", 6, 1, "ro"), ("transmit_margin", 7, 3, "rw"), ("enter_modified_compliance", 10, 1, "rw"), ("compliance_sos", 11, 1, "rw"),
      ("compliance_preset_deemphasis", 12, 4, "rw"), ("current_deemphasis_level", 16, 1, "ro"), ("equalization_8gt_complete", 17, 1, "ro"),
      ("equalization_8gt_phase_1_successful", 18, 1, "ro"), ("equalization_8gt_phase_2_successful", 19, 1, "ro"),
      ("equalization_8gt_phase_3_successful", 20, 1, "ro"), ("link_equalization_8gt_request", 21, 1, "w1c"), ("retimer_presence_detected", 22, 1, "ro"),
      ("two_retimers_presence_detected", 23, 1, "ro"), ("crosslink_resolution", 24, 2, "ro"), ("downstream_component_presence", 28, 3, "ro"),
      ("drs_message_received", 31, 1, "w1c"))

UNC = (("data_link_protocol_error", 4), ("surprise_down_error", 5), ("poisoned_tlp_received", 12), ("flow_control_protocol_error", 13),
       ("completion_timeout", 14), ("completer_abort", 15), ("unexpected_completion", 16), ("receiver_overflow", 17), ("malformed_tlp", 18),
       ("ecrc_error", 19), ("unsupported_request_error", 20), ("acs_violation", 21), ("uncorrectable_internal_error", 22), ("mc_blocked_tlp", 23),
       ("atomicop_egress_blocked", 24), ("tlp_prefix_blocked_error", 25), ("poisoned_tlp_egress_blocked", 26))
COR = (("receiver_error", 0), ("bad_tlp", 6), ("bad_dllp", 7), ("replay_num_rollover", 8), ("replay_timer_timeout", 12), ("advisory_nonfatal_error", 13),
       ("corrected_internal_error", 14), ("header_log_overflow", 15))
AER = bits(1, "w1c", *((a + "_status", b) for a, b in UNC)) + bits(2, "rw", *((a + "_mask", b) for a, b in UNC)) + \
    bits(3, "rw", *((a + "_severity", b) for a, b in UNC)) + bits(4, "w1c", *((a + "_status", b) for a, b in COR)) + \
    bits(5, "rw", *((a + "_mask", b) for a, b in COR)) + \
    F(6, ("first_error_pointer", 0, 5, "ro"), ("ecrc_generation_capable", 5, 1, "ro"), ("ecrc_generation_enable", 6, 1, "rw"),
      ("ecrc_check_capable", 7, 1, "ro"), ("ecrc_check_enable", 8, 1, "rw"), ("multiple_header_recording_capable", 9, 1, "ro"),
      ("multiple_header_recording_enable", 10, 1, "rw"), ("tlp_prefix_log_present", 11, 1, "ro"),
      ("completion_timeout_prefix_header_log_capable", 12, 1, "ro")) + \
    [("header_log.%d" % i, 7 + i, 0, 32, "ro") for i in range(4)]
AER_ROOT = AER + F(11, ("correctable_error_reporting_enable", 0, 1, "rw"), ("nonfatal_error_reporting_enable", 1, 1, "rw"), ("fatal_error_reporting_enable", 2, 1, "rw")) + \
    F(12, ("err_cor_received", 0, 1, "w1c"), ("multiple_err_cor_received", 1, 1, "w1c"), ("err_fatal_nonfatal_received", 2, 1, "w1c"),
      ("multiple_err_fatal_nonfatal_received", 3, 1, "w1c"), ("first_uncorrectable_fatal", 4, 1, "w1c"), ("nonfatal_error_messages_received", 5, 1, "w1c"),
      ("fatal_error_messages_received", 6, 1, "w1c"), ("advanced_error_interrupt_message_number", 27, 5, "ro")) + \
    F(13, ("err_cor_source_identification", 0, 16, "ro"), ("err_fatal_nonfatal_source_identification", 16, 16, "ro")) + \
    [("tlp_prefix_log.%d" % i, 14 + i, 0, 32, "ro") for i in range(4)]

EXP2 = F(1, ("perform_equalization", 0, 1, "rw"), ("link_equalization_request_interrupt_enable", 1, 1, "rw"), ("enable_lower_skp_os_generation", 9, 7, "rw")) + \
    F(2, ("lane_error_status", 0, 32, "w1c")) + \
    [(a + ".%d" % lane, 3 + lane // 2, lsb + 16 * (lane % 2), w, "ro") for lane in range(16) for a, lsb, w in (
        ("downstream_port_8gt_transmitter_preset", 0, 4), ("downstream_port_8gt_receiver_preset_hint", 4, 3),
        ("upstream_port_8gt_transmitter_preset", 8, 4), ("upstream_port_8gt_receiver_preset_hint", 12, 3))]

MSIX = F(0, ("msix_table_size", 16, 11, "ro"), ("msix_function_mask", 30, 1, "rw"), ("msix_enable", 31, 1, "rw")) + \
    F(1, ("msix_table_bar_indicator_register", 0, 3, "ro"), ("msix_table_offset", 0, 32, "ro8")) + \
    F(2, ("msix_pba_bar_indicator_register", 0, 3, "ro"), ("msix_pba_offset", 0, 32, "ro8"))


def msi_fields(b64, mask, ext):
    d = 3 if b64 else 2
    f = F(0, ("msi_enable", 16, 1, "rw"), ("msi_multiple_message_capable", 17, 3, "ro"), ("msi_multiple_message_enable", 20, 3, "rw"),
          ("msi_64bit_address_capable", 23, 1, "ro"), ("msi_per_vector_mask_capable", 24, 1, "ro"), ("msi_extended_message_data_capable", 25, 1, "ro"),
          ("msi_extended_message_data_enable", 26, 1, "rw" if ext else "ro"))
    f += [("msi_message_address", 1, 2, 30, "rw", 2)]
    if b64:
        f += [("msi_message_address", 2, 0, 32, "rw", 32)]
    f += F(d, ("msi_message_data", 0, 32 if ext else 16, "rw"))
    if mask:
        f += F(d + 1, ("msi_mask_bits", 0, 32, "rw")) + F(d + 2, ("msi_pending_bits", 0, 32, "ro"))
    return f


TABLES = {"pm": (PmCapability, PM, 2), "pcie": (PcieCapability, PCIE, 15), "aer": (AerExtendedCapability, AER, 11), "aer_root": (AerExtendedCapability, AER_ROOT, 18),
          "exp2": (PcieExtendedCapability, EXP2, 11), "msix": (MsixCapability, MSIX, 3)}

op = mix(
    st.tuples(st.just("w"), st.integers(0, 17), st.one_of(st.integers(0, 0xffffffff), st.sampled_from([0, 0xffffffff]), st.integers(0, 31).map(lambda b: 1 << b)), st.integers(1, 15)),
    st.tuples(st.just("w"), st.integers(0, 17), st.just(0xffffffff), st.integers(1, 15)),
    st.tuples(st.just("s"), st.integers(0, 400), st.integers(0, 0xffffffff)),
).map(list)
case = st.fixed_dictionaries({"cap": st.sampled_from(sorted(TABLES) + ["pcie", "pcie"]), "seed": st.integers(0, 0xffff), "gap": st.integers(0, 3), "ops": many(op, 0, 25)})
msi_case = st.fixed_dictionaries({"cap": st.just("msi"), "b64": st.booleans(), "mask": st.booleans(), "ext": st.booleans(), "seed": st.integers(0, 0xffff), "gap": st.integers(0, 3),
                                  "ops": many(op, 0, 25)})


# reset values of fields software can change, where the specification gives one other than zero or (None) leaves it open
RESET = dict.fromkeys(["enable_relaxed_ordering", "enable_no_snoop"] + [x + "_mask" for x in (
    "uncorrectable_internal_error", "poisoned_tlp_egress_blocked", "advisory_nonfatal_error", "corrected_internal_error", "header_log_overflow")]
    + [x + "_severity" for x in ("data_link_protocol_error", "surprise_down_error", "flow_control_protocol_error", "receiver_overflow", "malformed_tlp",
                                 "uncorrectable_internal_error")], 1)
RESET.update(dict.fromkeys(["target_link_speed", "attention_indicator_control", "power_indicator_control", "power_controller_control", "msi_message_address"]), max_read_request_size=2)


def getf(cap, attr):
    if "." in attr:
        a, i = attr.split(".")
        return int(getattr(cap, a)[int(i)])
    return int(getattr(cap, attr))


def setf(cap, attr, v, w):
    if "." in attr:
        a, i = attr.split(".")
        getattr(cap, a)[int(i)] = v
    else:
        setattr(cap, attr, bool(v) if w == 1 else v)


def bytemask(m):
    return sum(0xff << 8 * i for i in range(4) if m >> i & 1)


async def drive(c, ctx, cls, table, length):
    ep = Endpoint()
    for x in list(ep.capabilities.list):
        ep.deregister_capability(x)
    cap = cls()
    if hasattr(cap, "length"):
        cap.length = length
    calls = []

    async def flr():
        calls.append("flr")

    async def retrain():
        calls.append("retrain")
    cap.initiate_function_level_reset, cap.initiate_retrain_link = flr, retrain
    ext = c["cap"] in ("aer", "aer_root", "exp2")
    off = (0x40 if ext else 0x10) + c["gap"]
    (ep.register_extended_capability if ext else ep.register_capability)(cap, off)
    rnd = random.Random(c["seed"])
    state = {}          # (attr, shift in attribute) -> value
    fields = [(f + (0,))[:6] for f in table]
    for f in fields:
        if f[4] in ("rw", "w1c") and RESET.get(f[0], 0) is not None:
            check(getf(cap, f[0]) == RESET.get(f[0], 0), "%s.%s is %x after construction, reset value is %x", c["cap"], f[0], getf(cap, f[0]), RESET.get(f[0], 0))
    for a, reg, lsb, w, acc, sh in fields:
        if c["seed"] and not (c["cap"] == "msi" and a.endswith("_capable") and a != "msi_multiple_message_capable"):
            v = rnd.getrandbits(w) if rnd.random() < .7 else rnd.choice([0, (1 << w) - 1])
            if acc == "ro8":
                v &= ~7
            if not sh:
                setf(cap, a, v, w)
            else:
                cap.msi_message_address = (cap.msi_message_address & ~(((1 << w) - 1) << sh)) | v << sh
    if c["cap"] == "msi" and not c["b64"]:
        cap.msi_message_address &= 0xfffffffc

    def val(f):
        a, reg, lsb, w, acc, sh = f
        return (getf(cap, a) >> sh) & ((1 << w) - 1)
    for f in fields:
        state[f] = val(f)

    async def compare(what):
        for r in range(length):
            want = anym = 0
            for f in fields:
                if f[1] == r:
                    if f[4] == "any":
                        anym |= 1 << f[2]
                    want |= state[f] << f[2]
            if ext and r == 0:
                want = cap.cap_id | cap.cap_ver << 16
            elif r == 0:
                want |= int(cap.cap_id)
            got = await ep.read_config_register(off + r)
            check(isinstance(got, int), "%s register %d reads %r", c["cap"], r, got)
            check((got ^ want) & ~anym == 0, "%s register %d (%s): reads %08x, expected %08x", c["cap"], r, what, got, want)
        for f in fields:
            if f[4] != "any":
                check(val(f) == state[f], "%s.%s is %x (%s), expected %x", c["cap"], f[0], val(f), what, state[f])
                if "." not in f[0] and f[5] == 0 and f[0] != "msi_message_address":
                    check(getf(cap, f[0]) == state[f], "%s.%s is %x (%s), expected %x", c["cap"], f[0], getf(cap, f[0]), what, state[f])
    await compare("initially")
    hits = 0
    for o in c["ops"]:
        if o[0] == "s":
            f = fields[o[1] % len(fields)]
            if f[0].endswith("_capable") and c["cap"] == "msi" and f[0] != "msi_multiple_message_capable" or f[5]:
                continue
            v = o[2] & ((1 << f[3]) - 1)
            if f[4] == "ro8":
                v &= ~7
            setf(cap, f[0], v, f[3])
            state[f] = v
            continue
        _, r, data, m = o
        r %= length
        bm = bytemask(m)
        before = len(calls)
        await ep.write_config_register(off + r, data, m)
        for f in fields:
            a, reg, lsb, w, acc, sh = f
            if reg != r:
                continue
            fm = (bm >> lsb) & ((1 << w) - 1)
            d = (data >> lsb) & ((1 << w) - 1)
            old = state[f]
            if acc == "rw":
                state[f] = (old & ~fm) | (d & fm)
            elif acc == "w1c":
                state[f] = old & ~(d & fm)
            hits += state[f] != old
        want = []
        if c["cap"] == "pcie" and r == 2 and data & bm & 0x8000:
            want = ["flr"]
        if c["cap"] == "pcie" and r == 4 and data & bm & 0x20:
            want = ["retrain"]
        check(calls[before:] == want, "write %08x mask %x to PCIe register %d triggers %r, expected %r", data, m, r, calls[before:], want)
        await compare("after writing %08x mask %x to register %d" % (data, m, r))
    # neighbouring registers are not affected and read zero
    for r in (off - 1, off + length):
        if r >= (0x40 if ext else 0x10):
            check(await ep.read_config_register(r) == 0, "register %#x next to the capability reads non-zero", r * 4)
    ctx.nontrivial(hits > 0)
    ctx.label(c["cap"])


def run(c, ctx):
    async def main():
        if c["cap"] == "msi":
            def cls():
                m = MsiCapability()
                m.msi_64bit_address_capable, m.msi_per_vector_mask_capable, m.msi_extended_message_data_capable = c["b64"], c["mask"], c["ext"]
                return m
            await drive(c, ctx, cls, msi_fields(c["b64"], c["mask"], c["ext"]), 6)
        else:
            await drive(c, ctx, *TABLES[c["cap"]])
    simcore.run(main)


PARTS = [
    Part("caps", case, run, 6000, 200000, "attribute changes and byte-masked writes; non-trivial when a write changes a field"),
    Part("msi", msi_case, run, 2500, 80000, "the same for the eight layouts of the MSI capability"),
]
