"""Frozen description of the BLF format as this library exposes it (public names only).

A record is a list of (field path, offset, kind, wrapper) plus trailing parts. Kinds: u1..u8, i1..i8, f8 (little-endian), sN (raw
bytes), n*u8 (tuple or list of numbers). Wrapper: name of the enumeration the decoded value belongs to.
Sources: the BLF object layouts (binlog_objects), cross-checked against the sample objects the repository ships.
"""

SIZES = {"u1": 1, "u2": 2, "u4": 4, "u8": 8, "i1": 1, "i2": 2, "i4": 4, "i8": 8, "f4": 4, "f8": 8}


def ksize(k):
    if "*" in k:
        n, e = k.split("*")
        return int(n) * SIZES[e]
    if k[0] == "s":
        return int(k[1:])
    return SIZES[k]


def lay(text, at=0):
    """'name:kind[:Enum] ...', '.:kind' is a gap -> [(name, offset, kind, enum)]"""
    out = []
    for w in text.split():
        p = w.split(":")
        if p[0] != ".":
            out.append((p[0], at, p[1], p[2] if len(p) > 2 else None))
        at += ksize(p[1])
    return out, at


class Rec:
    """fixed: fields at constant offsets; parts: trailing parts in order, each (field, codec or None, length rule)
    length rule: ('field', name, delta) | ('rest',) | ('canfd64',); opt: optional extension description"""

    def __init__(self, name, fixed, header="ObjectHeader", parts=(), opt=None, types=(), base=32):
        self.name = name
        self.header = header
        self.fixed, self.end = lay(fixed, base)
        self.parts = parts
        self.opt = opt
        self.types = types


def F(name, ln, codec=None, delta=0):
    return (name, codec, ("field", ln, delta))


RECORDS = {r.name: r for r in [
    Rec("CanMessage", "channel:u2 flags:u1 dlc:u1 frame_id:u4 data:s8", types=(1,)),
    Rec("CanErrorFrame", "channel:u2 length:u2 reserved:u4", types=(2,)),
    Rec("CanOverloadFrame", "channel:u2 reserved1:u2 reserved2:u4", types=(3,)),
    Rec("CanDriverStatistic", "channel:u2 bus_load:u2 standard_data_frames:u4 extended_data_frames:u4 standard_remote_frames:u4 "
        "extended_remote_frames:u4 error_frames:u4 overload_frames:u4 reserved:u4", types=(4,)),
    Rec("AppTrigger", "pre_trigger_time:u8 post_trigger_time:u8 channel:u2 flags:u2:TriggerFlag app_specific:u4", types=(5,)),
    Rec("EnvironmentVariable", "name_length:u4 data_length:u4 reserved:u8",
        parts=(F("name", "name_length", "cp1252"), F("data", "data_length")), types=(6, 7, 8, 9)),
    Rec("LogContainer", "", parts=(("data", None, ("rest",)),), types=(10,)),
    Rec("LinMessage", "channel:u2 id:u1 dlc:u1 data:s8 fsm_id:u1 fsm_state:u1 header_time:u1 full_time:u1 crc:u2 dir:u1 reserved:s5",
        types=(11,)),
    Rec("CanDriverError", "channel:u2 tx_errors:u1 rx_errors:u1 error_code:u4", types=(31,)),
    Rec("CanDriverHwSync", "channel:u2 flags:u1 reserved1:u1 reserved2:u4", types=(44,)),
    Rec("RealTimeClock", "time:u8 logging_offset:u8", types=(51,)),
    Rec("LinMessage2",
        "lin_timestamp_event.lin_msg_descr_event.lin_synch_field_event.lin_bus_event.sof:u8 "
        "lin_timestamp_event.lin_msg_descr_event.lin_synch_field_event.lin_bus_event.event_baudrate:u4 "
        "lin_timestamp_event.lin_msg_descr_event.lin_synch_field_event.lin_bus_event.channel:u2 "
        "lin_timestamp_event.lin_msg_descr_event.lin_synch_field_event.lin_bus_event.reserved:s2 "
        "lin_timestamp_event.lin_msg_descr_event.lin_synch_field_event.synch_break_length:u8 "
        "lin_timestamp_event.lin_msg_descr_event.lin_synch_field_event.synch_del_length:u8 "
        "lin_timestamp_event.lin_msg_descr_event.supplier_id:u2 lin_timestamp_event.lin_msg_descr_event.message_id:u2 "
        "lin_timestamp_event.lin_msg_descr_event.nad:u1 lin_timestamp_event.lin_msg_descr_event.id:u1 "
        "lin_timestamp_event.lin_msg_descr_event.dlc:u1 lin_timestamp_event.lin_msg_descr_event.checksum_model:u1 "
        "lin_timestamp_event.databyte_timestamps:9*u8 "
        "data:s8 crc:u2 direction:u1 simulated:u1 is_etf:u1 etf_assoc_index:u1 etf_assoc_etf_id:u1 fsm_id:u1 fsm_state:u1 reserved:s3",
        opt=("versions", (("resp_baudrate:u4", 164, 168), ("exact_header_baudrate:f8 early_stopbit_offset:u4 "
                                                           "early_stopbit_offset_response:u4", 168, 184))), types=(57,)),
    Rec("AppText", "source:u4:AppTextSource reserved1:u4 text_length:u4 reserved2:u4", parts=(F("text", "text_length", "cp1252", -1),),
        types=(65,)),
    Rec("FlexrayVFrReceiveMsgEx",
        "channel:u2 version:u2 channel_mask:u2 dir_flags:u2 client_index:u4 cluster_no:u4 frame_id:u2 header_crc1:u2 header_crc2:u2 "
        "byte_count:u2 data_count:u2 cycle:u2 tag:u4 data:u4 frame_flags:u4 app_parameter:u4 frame_crc:u4 frame_length_ns:u4 "
        "frame_id1:u2 pdu_offset:u2 blf_log_mask:u2 reserved:s26", parts=(F("data_bytes", "data_count"),), types=(66,)),
    Rec("SystemVariable", "type:u4:SysVarType representation:u4 reserved1:u8 name_length:u4 data_length:u4 reserved2:u8",
        parts=(F("name", "name_length", "cp1252"), F("data", "data_length")), types=(72,)),
    Rec("CanErrorFrameExt", "channel:u2 length:u2 flags:u4 ecc:u1 position:u1 dlc:u1 reserved1:u1 frame_length_in_ns:u4 frame_id:u4 "
        "flags_ext:u2 reserved2:u2 data:s8", types=(73,)),
    Rec("CanDriverErrorExt", "channel:u2 tx_errors:u1 rx_errors:u1 error_code:u4 flags:u4 state:u1 reserved1:u1 reserved2:u2 "
        "reserved3:4*u4", types=(74,)),
    Rec("CanMessage2", "channel:u2 flags:u1 dlc:u1 frame_id:u4 data:s8 frame_length:u4 bit_count:u1 reserved1:u1 reserved2:u2",
        types=(86,)),
    Rec("DriverOverrun", "bus_type:u4:BusType channel:u2 reserved:u2", types=(91,)),
    Rec("EventComment", "commented_event_type:u4 text_length:u4 reserved:u8", parts=(F("text", "text_length", "cp1252"),), types=(92,)),
    Rec("GlobalMarker", "commented_event_type:u4 foreground_color:u4 background_color:u4 is_relocatable:u1 reserved1:u1 reserved2:u2 "
        "group_name_length:u4 marker_name_length:u4 description_length:u4 reserved3:u4 reserved4:u8",
        parts=(F("group_name", "group_name_length", "cp1252"), F("marker_name", "marker_name_length", "cp1252"),
               F("description", "description_length", "cp1252")), types=(96,)),
    Rec("CanFdMessage", "channel:u2 flags:u1 dlc:u1 frame_id:u4 frame_length:u4 arb_bit_count:u1 canfd_flags:u1:CanFdFlags "
        "valid_data_bytes:u1 reserved1:u1 reserved2:u4 data:s64 reserved3:u4", types=(100,)),
    Rec("CanFdMessage64", "channel:u1 dlc:u1 valid_data_bytes:u1 tx_count:u1 frame_id:u4 frame_length:u4 flags:u4:CanFdFlags "
        "btr_cfg_arb:u4 btr_cfg_data:u4 time_offset_brs_ns:u4 time_offset_crc_del_ns:u4 bit_count:u2 dir:u1 ext_data_offset:u1 crc:u4",
        parts=(("data", None, ("toext", "ext_data_offset")),), opt=("ext", "ext_data_offset", "btr_ext_arb:u4 btr_ext_data:u4"),
        types=(101,)),
    Rec("EthernetStatistic", "channel:u2 reserved_1:u2 reserved_2:u4 rcv_ok_hw:u8 xmit_ok_hw:u8 rcv_error_hw:u8 xmit_error_hw:u8 "
        "rcv_bytes_hw:u8 xmit_bytes_hw:u8 rcv_no_buffer_hw:u8 sqi:i2 hardware_channel:u2 reserved_3:u4", types=(114,)),
    Rec("CanFdErrorFrame64", "channel:u1 dlc:u1 valid_data_bytes:u1 ecc:u1 flags:u2 error_code_ext:u2 ext_flags:u2 ext_data_offset:u1 "
        "reserved1:u1 frame_id:u4 frame_length:u4 btr_cfg_arb:u4 btr_cfg_data:u4 time_offset_brs_ns:u4 time_offset_crc_del_ns:u4 "
        "crc:u4 error_position:u2 reserved2:u2", parts=(F("data", "valid_data_bytes"),),
        opt=("ext", "ext_data_offset", "btr_ext_arb:u4 btr_ext_data:u4"), types=(104,)),
    Rec("DiagRequestInterpretation", "diag_description_handle:u4 diag_variant_handle:u4 diag_service_handle:u4 ecu_qualifier_length:u4 "
        "variant_qualifier_length:u4 service_qualifier_length:u4",
        parts=(F("ecu_qualifier", "ecu_qualifier_length", "utf-8"), F("variant_qualifier", "variant_qualifier_length", "utf-8"),
               F("service_qualifier", "service_qualifier_length", "utf-8")), types=(119,)),
    Rec("EthernetFrameEx", "struct_length:u2 flags:u2 channel:u2 hardware_channel:u2 frame_duration:u8 frame_checksum:u4 dir:u2 "
        "frame_length:u2 frame_handle:u4 reserved:u4", parts=(F("frame_data", "frame_length"),), types=(120,)),
    Rec("FunctionBus", "object_type:u4:FunctionBusType ve_type:u4 name_length:u4 data_length:u4", header="VarObjectHeader",
        parts=(F("name", "name_length", "cp1252"), F("data", "data_length")), types=(124,)),
    Rec("TriggerCondition", "state:u4:TriggerConditionStatus trigger_block_name_length:u4 trigger_condition_length:u4",
        header="VarObjectHeader",
        parts=(F("trigger_block_name", "trigger_block_name_length", "cp1252"),
               F("trigger_condition", "trigger_condition_length", "cp1252")), types=(128,)),
]}

BASE = "base.signature:s4 base.header_size:u2 base.header_version:u2 base.object_size:u4 base.object_type:u4:ObjType"
HEADERS = {
    "ObjectHeader": lay(BASE + " object_flags:u4:ObjFlags client_index:u2 object_version:u2 object_time_stamp:u8"),
    "VarObjectHeader": lay(BASE + " object_flags:u4:ObjFlags object_static_size:u2 object_version:u2 object_time_stamp:u8"),
}

_TIME = "year:u2 month:u2 day_of_week:u2 day:u2 hour:u2 minute:u2 second:u2 milliseconds:u2"
_p = "lin_synch_field_event."
_b = "lin_bus_event."


def _pre(prefix, text):
    return " ".join(prefix + w if not w.startswith(".:") else w for w in text.split())


_BUS = "sof:u8 event_baudrate:u4 channel:u2 reserved:s2"
_SYN = _pre("lin_bus_event.", _BUS) + " synch_break_length:u8 synch_del_length:u8"
_DES = _pre("lin_synch_field_event.", _SYN) + " supplier_id:u2 message_id:u2 nad:u1 id:u1 dlc:u1 checksum_model:u1"
_DBT = _pre("lin_msg_descr_event.", _DES) + " databyte_timestamps:9*u8"

# nested structures and headers: (fields, size), methods the library offers for them
NESTED = {
    "SystemTime": (lay(_TIME), ("unpack", "unpack_from", "pack", "pack_into")),
    "ObjectHeaderBase": (lay(BASE.replace("base.", "")), ("unpack", "unpack_from", "pack", "pack_into")),
    "ObjectHeader": (HEADERS["ObjectHeader"], ("unpack", "unpack_from", "pack", "pack_into")),
    "VarObjectHeader": (HEADERS["VarObjectHeader"], ("unpack", "unpack_from", "pack", "pack_into")),
    "LinBusEvent": (lay(_BUS), ("unpack_from", "pack_into")),
    "LinSynchFieldEvent": (lay(_SYN), ("unpack_from", "pack_into")),
    "LinMessageDescriptor": (lay(_DES), ("unpack_from", "pack_into")),
    "LinDatabyteTimestampEvent": (lay(_DBT), ("unpack_from", "pack_into")),
}

FILEHEADER = lay("signature:s4 statistics_size:u4 api_number:u4 application_id:u1:AppId compression_level:u1:Compression "
                 "application_major:u1 application_minor:u1 file_size:u8 uncompressed_file_size:u8 object_count:u4 application_build:u4 "
                 + _pre("measurement_start_time.", _TIME) + " " + _pre("last_object_time.", _TIME)
                 + " restore_points_offset:u8 reserved:s64")

FILE_SIGNATURE = b"LOGG"
OBJ_SIGNATURE = b"LOBJ"
LOG_CONTAINER = 10
CODE_MAX = 128

# type code -> record class ("LogContainer" is handled by the reader itself)
DISPATCH = {t: r.name for r in RECORDS.values() for t in r.types}

# numeric values of every enumeration of the format
ENUMS = {
    "ObjType": ("IntEnum", {"UNKNOWN": 0, "CAN_MESSAGE": 1, "CAN_ERROR": 2, "CAN_OVERLOAD": 3, "CAN_STATISTIC": 4,
        "APP_TRIGGER": 5, "ENV_INTEGER": 6, "ENV_DOUBLE": 7, "ENV_STRING": 8, "ENV_DATA": 9, "LOG_CONTAINER": 10,
        "LIN_MESSAGE": 11, "LIN_CRC_ERROR": 12, "LIN_DLC_INFO": 13, "LIN_RCV_ERROR": 14, "LIN_SND_ERROR": 15,
        "LIN_SLV_TIMEOUT": 16, "LIN_SCHED_MODCH": 17, "LIN_SYN_ERROR": 18, "LIN_BAUDRATE": 19, "LIN_SLEEP": 20,
        "LIN_WAKEUP": 21, "MOST_SPY": 22, "MOST_CTRL": 23, "MOST_LIGHTLOCK": 24, "MOST_STATISTIC": 25, "reserved_1": 26,
        "reserved_2": 27, "reserved_3": 28, "FLEXRAY_DATA": 29, "FLEXRAY_SYNC": 30, "CAN_DRIVER_ERROR": 31, "MOST_PKT": 32,
        "MOST_PKT2": 33, "MOST_HWMODE": 34, "MOST_REG": 35, "MOST_GENREG": 36, "MOST_NETSTATE": 37, "MOST_DATALOST": 38,
        "MOST_TRIGGER": 39, "FLEXRAY_CYCLE": 40, "FLEXRAY_MESSAGE": 41, "LIN_CHECKSUM_INFO": 42, "LIN_SPIKE_EVENT": 43,
        "CAN_DRIVER_SYNC": 44, "FLEXRAY_STATUS": 45, "GPS_EVENT": 46, "FR_ERROR": 47, "FR_STATUS": 48, "FR_STARTCYCLE": 49,
        "FR_RCVMESSAGE": 50, "REALTIMECLOCK": 51, "AVAILABLE2": 52, "AVAILABLE3": 53, "LIN_STATISTIC": 54,
        "J1708_MESSAGE": 55, "J1708_VIRTUAL_MSG": 56, "LIN_MESSAGE2": 57, "LIN_SND_ERROR2": 58, "LIN_SYN_ERROR2": 59,
        "LIN_CRC_ERROR2": 60, "LIN_RCV_ERROR2": 61, "LIN_WAKEUP2": 62, "LIN_SPIKE_EVENT2": 63, "LIN_LONG_DOM_SIG": 64,
        "APP_TEXT": 65, "FR_RCVMESSAGE_EX": 66, "MOST_STATISTICEX": 67, "MOST_TXLIGHT": 68, "MOST_ALLOCTAB": 69,
        "MOST_STRESS": 70, "ETHERNET_FRAME": 71, "SYS_VARIABLE": 72, "CAN_ERROR_EXT": 73, "CAN_DRIVER_ERROR_EXT": 74,
        "LIN_LONG_DOM_SIG2": 75, "MOST_150_MESSAGE": 76, "MOST_150_PKT": 77, "MOST_ETHERNET_PKT": 78,
        "MOST_150_MESSAGE_FRAGMENT": 79, "MOST_150_PKT_FRAGMENT": 80, "MOST_ETHERNET_PKT_FRAGMENT": 81,
        "MOST_SYSTEM_EVENT": 82, "MOST_150_ALLOCTAB": 83, "MOST_50_MESSAGE": 84, "MOST_50_PKT": 85, "CAN_MESSAGE2": 86,
        "LIN_UNEXPECTED_WAKEUP": 87, "LIN_SHORT_OR_SLOW_RESPONSE": 88, "LIN_DISTURBANCE_EVENT": 89, "SERIAL_EVENT": 90,
        "OVERRUN_ERROR": 91, "EVENT_COMMENT": 92, "WLAN_FRAME": 93, "WLAN_STATISTIC": 94, "MOST_ECL": 95,
        "GLOBAL_MARKER": 96, "AFDX_FRAME": 97, "AFDX_STATISTIC": 98, "KLINE_STATUSEVENT": 99, "CAN_FD_MESSAGE": 100,
        "CAN_FD_MESSAGE_64": 101, "ETHERNET_RX_ERROR": 102, "ETHERNET_STATUS": 103, "CAN_FD_ERROR_64": 104,
        "LIN_SHORT_OR_SLOW_RESPONSE2": 105, "AFDX_STATUS": 106, "AFDX_BUS_STATISTIC": 107, "reserved_4": 108,
        "AFDX_ERROR_EVENT": 109, "A429_ERROR": 110, "A429_STATUS": 111, "A429_BUS_STATISTIC": 112, "A429_MESSAGE": 113,
        "ETHERNET_STATISTIC": 114, "reserved_5": 115, "reserved_6": 116, "reserved_7": 117, "TEST_STRUCTURE": 118,
        "DIAG_REQUEST_INTERPRETATION": 119, "ETHERNET_FRAME_EX": 120, "ETHERNET_FRAME_FORWARDED": 121,
        "ETHERNET_ERROR_EX": 122, "ETHERNET_ERROR_FORWARDED": 123, "FUNCTION_BUS": 124, "DATA_LOST_BEGIN": 125,
        "DATA_LOST_END": 126, "WATER_MARK_EVENT": 127, "TRIGGER_CONDITION": 128}),
    "AppId": ("IntEnum", {"UNKNOWN": 0, "CANALYZER": 1, "CANOE": 2, "CANSTRESS": 3, "CANLOG": 4, "CANAPE": 5,
        "CANCASEXLLOG": 6, "VLCONFIG": 7, "PORSCHELOGGER": 200}),
    "Compression": ("IntEnum", {"NONE": 0, "SPEED": 1, "DEFAULT": 6, "MAX": 9}),
    "ObjFlags": ("IntFlag", {"TIME_TEN_MICS": 1, "TIME_ONE_NANS": 2}),
    "TriggerFlag": ("IntFlag", {"SINGLE_TRIGGER": 0, "LOGGING_START": 1, "LOGGING_STOP": 2}),
    "CanFdFlags": ("IntFlag", {"NERR": 4, "HIGH_VOLTAGE_WAKE_UP": 8, "REMOTE_FRAME": 16, "TX_ACKNOWLEDGE": 64,
        "TX_REQUEST": 128, "SRR": 512, "R0": 1024, "R1": 2048, "FDF": 4096, "BRS": 8192, "ESI": 16384,
        "FRAME_PART_OF_BURST": 131072, "SINGLE_SHOT_MODE_NOT_TRANSMITTED": 262144, "SINGLE_SHOT_MODE_REASON": 524288}),
    "SysVarType": ("IntEnum", {"DOUBLE": 1, "LONG": 2, "STRING": 3, "DOUBLEARRAY": 4, "LONGARRAY": 5, "LONGLONG": 6,
        "BYTEARRAY": 7}),
    "BusType": ("IntEnum", {"CAN": 1, "LIN": 5, "MOST": 6, "FLEXRAY": 7, "J1708": 9, "ETHERNET": 10, "WLAN": 13, "AFDX": 14}),
    "AppTextSource": ("IntEnum", {"MEASUREMENTCOMMENT": 0, "DBCHANNELINFO": 1, "METADATA": 2, "ATTACHMENT": 3, "TRACELINE": 4}),
    "FunctionBusType": ("IntEnum", {"UNDEFINED": 0, "SIGNAL": 1, "SERVICE_FUNCTION": 2, "STATE": 3}),
    "TriggerConditionStatus": ("IntEnum", {"UNKNOWN": 0, "START": 1, "STOP": 2, "STARTSTOP": 3}),
}

# enumerations whose decoding maps unknown numbers to a documented value; all others raise or keep the number
UNKNOWN_OK = {"ObjType": 0, "AppId": 0}
