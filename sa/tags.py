"""Which properties a deviation from the reference contradicts."""

FIELD = {
    "protocol_version": "C17",
    "pid_man": "C08 C06 C16",
    "pid_suback": "C08 C10", "pid_unsuback": "C08 C10",
    "pid_puback": "C06 C08 C01 C16", "pid_pubrec": "C06 C08 C01 C16", "pid_pubcomp": "C06 C08 C01 C16",
    "pid_pubrel": "C08 C06 C12",
    "need_store": "C06 C10 C16",
    "store": "C06 C16 C01",
    "offline_publish": "C06", "auto_pub_response": "C01 C07", "auto_ping_response": "C01 C15",
    "auto_map_topic_alias_send": "C13", "auto_replace_topic_alias_send": "C13",
    "topic_alias_send": "C13", "topic_alias_recv": "C13",
    "publish_send_max": "C12", "publish_send_count": "C12", "publish_recv_max": "C12", "publish_recv": "C12 C01",
    "maximum_packet_size_send": "C14", "maximum_packet_size_recv": "C14",
    "status": "C11 C17 C05",
    "pingreq_user_send_interval_ms": "C15", "pingreq_keep_alive_ms": "C15", "pingreq_server_keep_alive_ms": "C15",
    "pingreq_recv_timeout_ms": "C15", "pingresp_recv_timeout_ms": "C15",
    "pingreq_send_set": "C15", "pingreq_recv_set": "C15", "pingresp_recv_set": "C15",
    "qos2_publish_handled": "C07 C16 C01",
    "packet_builder": "C09 C05",
    "is_client": "C15",
}
TIMER_FIELDS = {"pingreq_user_send_interval_ms", "pingreq_keep_alive_ms", "pingreq_server_keep_alive_ms",
                "pingreq_recv_timeout_ms", "pingresp_recv_timeout_ms", "pingreq_send_set", "pingreq_recv_set",
                "pingresp_recv_set", "is_client"}
NOTE = {
    "refused": "C11", "version": "C11", "role": "C11",
    "size-send": "C14", "size-auto": "C14", "size-stored": "C14 C06", "toolarge": "C14",
    "rm-send": "C12", "rm-recv": "C12",
    "alias-send": "C13", "alias-use": "C13", "alias-recv": "C13", "alias-bad": "C13",
    "gate": "C17", "detect": "C17", "dupconnect": "C17", "malformed": "C05",
    "badack": "C06", "dup": "C07", "resume": "C06 C16", "newsession": "C06 C10", "auto": "C01",
}
KIND = {
    "Publish": "C01 C06", "Puback": "C01 C06", "Pubrec": "C01 C06", "Pubrel": "C01 C06", "Pubcomp": "C01 C06",
    "Pingreq": "C15", "Pingresp": "C15", "Connect": "C10", "Connack": "C06", "Disconnect": "C19",
}
QOS2 = {"Publish", "Pubrec", "Pubrel"}
ENTRY = {
    "new": "C10", "closed": "C10", "timer": "C15", "feed": "C05 C09",
    "restore_packets": "C16 C06", "get_stored_packets": "C16 C06", "get_qos2_publish_handled": "C16 C07",
    "restore_qos2_publish_handled": "C16 C07", "regulate_for_store": "C13", "get_protocol_version": "C17",
    "get_receive_maximum_vacancy_for_send": "C12",
    "acquire_packet_id": "C08", "register_packet_id": "C08", "release_packet_id": "C08", "erase_stored_publish": "C06 C08",
    "set_offline_publish": "C06", "set_pingreq_send_interval": "C15", "set_auto_pub_response": "C01 C07",
    "set_auto_ping_response": "C15", "set_auto_map_topic_alias_send": "C13", "set_auto_replace_topic_alias_send": "C13",
    "set_pingresp_recv_timeout": "C15",
}
KINDS = {1: "Connect", 2: "Connack", 3: "Publish", 4: "Puback", 5: "Pubrec", 6: "Pubrel", 7: "Pubcomp",
         8: "Subscribe", 9: "Suback", 10: "Unsubscribe", 11: "Unsuback", 12: "Pingreq", 13: "Pingresp",
         14: "Disconnect", 15: "Auth", 0: "type-0"}


def entry_kind(job):
    """(entry, packet kind or sub-entry)"""
    e = job[0]
    if e in ("send", "csend"):
        v = job[2]
        return "send", v[6:] if v.startswith("V3_1_1") else v[4:]
    if e == "recv":
        return e, KINDS[job[2]]
    if e in ("get", "set", "ids"):
        return e, job[2]
    if e == "timer":
        return e, job[2]
    return e, ""


def props(job, aspect, notes, text=""):
    e, k = entry_kind(job)
    out = set()

    def add(s):
        out.update((s or "").split())
    notes = set(notes)
    timer = aspect == "timer" or aspect.startswith("f:") and aspect[2:] in TIMER_FIELDS
    if aspect.startswith("f:"):
        add(FIELD.get(aspect[2:], "C10"))
    if aspect == "timer":
        add("C15")
    if aspect in ("close", "closeorder"):
        add("C19")
        if e == "recv" and notes & {"malformed", "toolarge", "gate", "badack", "dupconnect"}:
            add("C05")
        if e == "timer":
            add("C15")
    if aspect in ("rel", "relerr"):
        add("C08")
        if e == "recv" or e == "closed":
            add("C06")
    if aspect == "inv":
        add("C08 C06")
    if aspect in ("panic", "loopbound"):
        add("C05")
    if aspect == "parse":
        add("C05 C01")
    if aspect == "event":
        add("C05")
    if aspect == "err":
        if e == "recv":
            add("C05")
        if e == "send":
            add("C11")
    if aspect == "send" and e == "send":
        add("C11")
    if aspect == "loop":
        add("C06")
    if aspect == "recv":
        add("C01")
    if not timer:
        for n in notes:
            add(NOTE.get(n))
        if e in ("send", "recv") and aspect in ("send", "recv", "err", "relerr", "rel", "loop", "panic"):
            add(KIND.get(k))
            if k in QOS2 and (e == "recv" or k == "Pubrec"):
                add("C07")
            if e == "recv" and k == "Publish" and aspect == "recv":
                add("C13")
            if aspect == "err" and k in ("Connect", "Connack"):
                add("C17")
            if k == "Connack" and aspect in ("send", "loop"):
                add("C16")
    else:
        if k in ("Connect", "Connack") and aspect.startswith("f:"):
            add("C10")
    if e in ("send", "recv") and "refused" not in notes and k in ("Connect", "Connack") and aspect.startswith("f:") and not aspect[2:] in ("pid_man",):
        add("C10")
    if e in ("set", "get", "ids"):
        add(ENTRY.get(k))
    elif e in ENTRY:
        if e == "timer" and aspect in ("close", "closeorder", "send"):
            add("C19")
        add(ENTRY[e])
        if e == "closed":
            if timer:
                add("C15")
            if aspect in ("rel",) or aspect.startswith("f:pid"):
                add("C08")
            add("C05") if aspect in ("panic", "f:status", "f:packet_builder") else None
    if e == "recv" and k == "Disconnect" and aspect in ("timer", "f:status"):
        add("C15")
    if e == "send" and k in ("Disconnect", "Connack") and aspect in ("close", "closeorder", "send"):
        add("C19")
    return out


FIELD_ALL = {f"C{i:02d}" for i in (1, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 19)}


def scope(job):
    """properties that need this unit of work"""
    e, k = entry_kind(job)
    out = set()
    if e == "send":
        out |= {"C11"}
    if e == "recv":
        out |= {"C05", "C17"}
    if e in ("send", "recv"):
        out |= set((KIND.get(k) or "C05").split())
    if e in ("get", "set", "ids"):
        out |= set(ENTRY.get(k, "C10").split())
    elif e in ENTRY:
        out |= set(ENTRY[e].split())
    return out
