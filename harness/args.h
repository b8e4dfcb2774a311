/* args K: entry point number K of the table below is called without one of the objects it works on.  The result is the
   return value (pointers: 0 or 1), after it "same" tells whether what was handed over for output is as before. */
#define I(n, e) case __LINE__ - base: *name = n; LIB(r = (e)); break;
#define PT(n, e) case __LINE__ - base: *name = n; { void *v_; LIB(v_ = (void *)(e)); r = v_ != NULL; } break;
#define V(n, e) case __LINE__ - base: *name = n; LIB(e); r = 0; break;
static long arg_call(int k, int variant, mbus_frame *f, mbus_frame_data *d, mbus_handle *h, const char **name)
{
    long r = -99;
    mbus_data_record *rec = d->data_var.record;
    mbus_value_information_block *vib = &rec->drh.vib;
    static const unsigned char firsts[] = {1, 0xE5, 0x10, 0x68}; static const size_t sizes[] = {4, 2, 6, 1, 3, 0, 8};
    unsigned char b[16] = {firsts[variant & 3], 2, 3, 4, 5, 6}, o[300];
    const size_t n = sizes[(variant >> 2) % 7], m = n ? n : 4;      /* sizes; m never 0 */
    const int ad = (variant >> 5) & 0xFF;
    char *u = NULL, *q = NULL, *s = NULL; double x = 0; int sz = 0; long l; long long ll; int i; struct tm t;
    enum { base = __LINE__ + 2 };
    switch (k) {
    I("mbus_parse(-,data,6)", mbus_parse(NULL, b, m))
    I("mbus_parse(frame,-,6)", mbus_parse(f, NULL, m))
    I("mbus_parse(frame,data,0)", mbus_parse(f, b, 0))
    I("mbus_frame_pack(-,buf)", mbus_frame_pack(NULL, o, sizeof o))
    I("mbus_frame_pack(frame,-)", mbus_frame_pack(f, NULL, sizeof o))
    I("mbus_frame_verify(-)", mbus_frame_verify(NULL))
    I("mbus_frame_type(-)", mbus_frame_type(NULL))
    I("mbus_frame_direction(-)", mbus_frame_direction(NULL))
    I("mbus_frame_free(-)", mbus_frame_free(NULL))
    I("mbus_frame_calc_checksum(-)", mbus_frame_calc_checksum(NULL))
    I("mbus_frame_calc_length(-)", mbus_frame_calc_length(NULL))
    I("mbus_frame_print(-)", mbus_frame_print(NULL))
    I("mbus_frame_internal_pack(-,data)", mbus_frame_internal_pack(NULL, d))
    I("mbus_frame_internal_pack(frame,-)", mbus_frame_internal_pack(f, NULL))
    I("mbus_frame_select_secondary_pack(-,mask)", mbus_frame_select_secondary_pack(NULL, "0123456789ABCDEF"))
    I("mbus_frame_select_secondary_pack(frame,-)", mbus_frame_select_secondary_pack(f, NULL))
    PT("mbus_frame_get_secondary_address(-)", mbus_frame_get_secondary_address(NULL))
    PT("mbus_frame_xml(-)", mbus_frame_xml(NULL))
    I("mbus_frame_data_parse(-,data)", mbus_frame_data_parse(NULL, d))
    I("mbus_frame_data_parse(frame,-)", mbus_frame_data_parse(f, NULL))
    I("mbus_data_fixed_parse(-,data)", mbus_data_fixed_parse(NULL, &d->data_fix))
    I("mbus_data_fixed_parse(frame,-)", mbus_data_fixed_parse(f, NULL))
    I("mbus_data_variable_parse(-,data)", mbus_data_variable_parse(NULL, &d->data_var))
    I("mbus_data_variable_parse(frame,-)", mbus_data_variable_parse(f, NULL))
    V("mbus_frame_data_free(-)", mbus_frame_data_free(NULL))
    PT("mbus_frame_data_xml(-)", mbus_frame_data_xml(NULL))
    PT("mbus_frame_data_xml_normalized(-)", mbus_frame_data_xml_normalized(NULL))
    PT("mbus_data_variable_xml(-)", mbus_data_variable_xml(NULL))
    PT("mbus_data_variable_xml_normalized(-)", mbus_data_variable_xml_normalized(NULL))
    PT("mbus_data_fixed_xml(-)", mbus_data_fixed_xml(NULL))
    PT("mbus_data_variable_header_xml(-)", mbus_data_variable_header_xml(NULL))
    I("mbus_frame_data_print(-)", mbus_frame_data_print(NULL))
    I("mbus_data_fixed_print(-)", mbus_data_fixed_print(NULL))
    I("mbus_data_variable_print(-)", mbus_data_variable_print(NULL))
    I("mbus_data_variable_header_print(-)", mbus_data_variable_header_print(NULL))
    PT("mbus_data_record_function(-)", mbus_data_record_function(NULL))
    PT("mbus_data_record_unit(-)", mbus_data_record_unit(NULL))
    PT("mbus_data_record_value(-)", mbus_data_record_value(NULL))
    I("mbus_data_record_storage_number(-)", mbus_data_record_storage_number(NULL))
    I("mbus_data_record_tariff(-)", mbus_data_record_tariff(NULL))
    I("mbus_data_record_device(-)", mbus_data_record_device(NULL))
    V("mbus_data_record_free(-)", mbus_data_record_free(NULL))
    V("mbus_data_record_append(-,record)", mbus_data_record_append(NULL, rec))
    V("mbus_data_record_append(data,-)", mbus_data_record_append(&d->data_var, NULL))
    PT("mbus_data_product_name(-)", mbus_data_product_name(NULL))
    PT("mbus_data_fixed_medium(-)", mbus_data_fixed_medium(NULL))
    PT("mbus_vib_unit_lookup(-)", mbus_vib_unit_lookup(NULL))
    I("mbus_data_manufacturer_encode(-,code)", mbus_data_manufacturer_encode(NULL, (unsigned char *)"ABC"))
    I("mbus_data_manufacturer_encode(data,-)", mbus_data_manufacturer_encode(b, NULL))
    I("mbus_manufacturer_id(-)", mbus_manufacturer_id(NULL))
    I("mbus_data_bcd_encode(-)", mbus_data_bcd_encode(NULL, n, 5))
    I("mbus_data_int_encode(-)", mbus_data_int_encode(NULL, n, 5))
    I("mbus_data_bcd_decode(-)", mbus_data_bcd_decode(NULL, n))
    I("mbus_data_bcd_decode_hex(-)", mbus_data_bcd_decode_hex(NULL, 4))
    I("mbus_data_int_decode(-,value)", mbus_data_int_decode(NULL, n, &i))
    I("mbus_data_long_decode(-,value)", mbus_data_long_decode(NULL, n, &l))
    I("mbus_data_long_long_decode(-,value)", mbus_data_long_long_decode(NULL, n, &ll))
    I("mbus_data_int_decode(data,0,value)", mbus_data_int_decode(b, 0, &i))
    I("mbus_data_long_decode(data,0,value)", mbus_data_long_decode(b, 0, &l))
    I("mbus_data_long_long_decode(data,0,value)", mbus_data_long_long_decode(b, 0, &ll))
    V("mbus_data_tm_decode(-,data)", mbus_data_tm_decode(NULL, b, n))
    V("mbus_data_tm_decode(tm,-)", mbus_data_tm_decode(&t, NULL, n))
    V("mbus_data_str_decode(-,src)", mbus_data_str_decode(NULL, b, n))
    V("mbus_data_str_decode(dst,-)", mbus_data_str_decode(o, NULL, n))
    V("mbus_data_bin_decode(-,src)", mbus_data_bin_decode(NULL, b, n, 30))
    V("mbus_data_bin_decode(dst,-)", mbus_data_bin_decode(o, NULL, n, 30))
    V("mbus_data_raw_decode(-,src)", mbus_data_raw_decode(NULL, b, n, 30))
    V("mbus_data_raw_decode(dst,-)", mbus_data_raw_decode(o, NULL, n, 30))
    I("mbus_str_xml_encode(-,src)", mbus_str_xml_encode(NULL, b, 30))
    I("mbus_str_xml_encode(dst,-)", mbus_str_xml_encode(o, NULL, 30))
    V("mbus_hex_dump(-,data)", mbus_hex_dump(NULL, (char *)b, n))
    V("mbus_hex_dump(label,-)", mbus_hex_dump("LBL", NULL, n))
    V("mbus_error_str_set(-)", mbus_error_str_set(NULL))
    I("mbus_is_secondary_address(-)", mbus_is_secondary_address(NULL))
    I("mbus_hex2bin(-,src)", (long)mbus_hex2bin(NULL, 10, (unsigned char *)"6810", 4))
    I("mbus_hex2bin(dst,-)", (long)mbus_hex2bin(o, 10, NULL, n))
    PT("mbus_slave_data_get(out of range)", mbus_slave_data_get(MBUS_MAX_PRIMARY_SLAVES))
    V("mbus_record_free(-)", mbus_record_free(NULL))
    PT("mbus_parse_variable_record(-)", mbus_parse_variable_record(NULL))
    PT("mbus_parse_fixed_record(-)", mbus_parse_fixed_record(0, 0, NULL))
    I("mbus_variable_value_decode(-,outputs)", mbus_variable_value_decode(NULL, &x, &s, &sz))
    I("mbus_vif_unit_normalize(-,value,quantity)", mbus_vif_unit_normalize(0x13, 1, NULL, &x, &q))
    I("mbus_vif_unit_normalize(unit,-,quantity)", mbus_vif_unit_normalize(0x13, 1, &u, NULL, &q))
    I("mbus_vif_unit_normalize(unit,value,-)", mbus_vif_unit_normalize(0x13, 1, &u, &x, NULL))
    I("mbus_vib_unit_normalize(-,outputs)", mbus_vib_unit_normalize(NULL, 1, &u, &x, &q))
    I("mbus_vib_unit_normalize(vib,-,value,quantity)", mbus_vib_unit_normalize(vib, 1, NULL, &x, &q))
    I("mbus_vib_unit_normalize(vib,unit,-,quantity)", mbus_vib_unit_normalize(vib, 1, &u, NULL, &q))
    I("mbus_vib_unit_normalize(vib,unit,value,-)", mbus_vib_unit_normalize(vib, 1, &u, &x, NULL))
    PT("mbus_context_serial(-)", mbus_context_serial(NULL))
    PT("mbus_context_tcp(-)", mbus_context_tcp(NULL, 80))
    V("mbus_context_free(-)", mbus_context_free(NULL))
    I("mbus_connect(-)", mbus_connect(NULL))
    I("mbus_disconnect(-)", mbus_disconnect(NULL))
    I("mbus_context_set_option(-)", mbus_context_set_option(NULL, MBUS_OPTION_MAX_DATA_RETRY, 3))
    I("mbus_recv_frame(-,frame)", mbus_recv_frame(NULL, f))
    I("mbus_recv_frame(handle,-)", mbus_recv_frame(h, NULL))
    I("mbus_purge_frames(-)", mbus_purge_frames(NULL))
    I("mbus_send_frame(-,frame)", mbus_send_frame(NULL, f))
    I("mbus_send_frame(handle,-)", mbus_send_frame(h, NULL))
    I("mbus_send_select_frame(-,mask)", mbus_send_select_frame(NULL, "0123456789ABCDEF"))
    I("mbus_send_select_frame(handle,-)", mbus_send_select_frame(h, NULL))
    I("mbus_send_application_reset_frame(-)", mbus_send_application_reset_frame(NULL, ad, 0))
    I("mbus_send_switch_baudrate_frame(-)", mbus_send_switch_baudrate_frame(NULL, ad, 2400))
    I("mbus_send_request_frame(-)", mbus_send_request_frame(NULL, ad))
    I("mbus_send_user_data_frame(-,data)", mbus_send_user_data_frame(NULL, ad, b, n))
    I("mbus_send_user_data_frame(handle,-)", mbus_send_user_data_frame(h, 5, NULL, m))
    I("mbus_set_primary_address(-)", mbus_set_primary_address(NULL, ad, 6))
    I("mbus_sendrecv_request(-,frame)", mbus_sendrecv_request(NULL, ad, f, 2))
    I("mbus_sendrecv_request(handle,-)", mbus_sendrecv_request(h, 5, NULL, 2))
    I("mbus_send_ping_frame(-)", mbus_send_ping_frame(NULL, ad, 0))
    I("mbus_send_ping_frame(-,purge)", mbus_send_ping_frame(NULL, ad, 1))
    I("mbus_select_secondary_address(-,mask)", mbus_select_secondary_address(NULL, "0123456789ABCDEF"))
    I("mbus_select_secondary_address(handle,-)", mbus_select_secondary_address(h, NULL))
    I("mbus_probe_secondary_address(-,mask,buf)", mbus_probe_secondary_address(NULL, "0123456789ABCDEF", (char *)o))
    I("mbus_probe_secondary_address(handle,-,buf)", mbus_probe_secondary_address(h, NULL, (char *)o))
    I("mbus_probe_secondary_address(handle,mask,-)", mbus_probe_secondary_address(h, "0123456789ABCDEF", NULL))
    { mbus_address a_; memset(&a_, 0, sizeof a_);
    I("mbus_read_slave(-,address,reply)", (a_.is_primary = 1, a_.primary = 5, mbus_read_slave(NULL, &a_, f)))
    I("mbus_read_slave(handle,-,reply)", mbus_read_slave(h, NULL, f))
    I("mbus_read_slave(handle,secondary -,reply)", (a_.is_primary = 0, a_.secondary = NULL, mbus_read_slave(h, &a_, f)))
    }
    I("mbus_scan_2nd_address_range(-,mask)", mbus_scan_2nd_address_range(NULL, 0, (char[]){"FFFFFFFFFFFFFFFF"}))
    I("mbus_scan_2nd_address_range(handle,-)", mbus_scan_2nd_address_range(h, 0, NULL))
    I("mbus_tcp_connect(-)", mbus_tcp_connect(NULL))
    I("mbus_tcp_disconnect(-)", mbus_tcp_disconnect(NULL))
    I("mbus_tcp_send_frame(-,frame)", mbus_tcp_send_frame(NULL, f))
    I("mbus_tcp_send_frame(handle,-)", mbus_tcp_send_frame(h, NULL))
    I("mbus_tcp_recv_frame(-,frame)", mbus_tcp_recv_frame(NULL, f))
    I("mbus_tcp_recv_frame(handle,-)", mbus_tcp_recv_frame(h, NULL))
    V("mbus_tcp_data_free(-)", mbus_tcp_data_free(NULL))
    I("mbus_serial_connect(-)", mbus_serial_connect(NULL))
    I("mbus_serial_disconnect(-)", mbus_serial_disconnect(NULL))
    I("mbus_serial_send_frame(-,frame)", mbus_serial_send_frame(NULL, f))
    I("mbus_serial_send_frame(handle,-)", mbus_serial_send_frame(h, NULL))
    I("mbus_serial_recv_frame(-,frame)", mbus_serial_recv_frame(NULL, f))
    I("mbus_serial_recv_frame(handle,-)", mbus_serial_recv_frame(h, NULL))
    I("mbus_serial_set_baudrate(-)", mbus_serial_set_baudrate(NULL, 2400))
#define G(e) ({ mbus_handle *g = mbus_context_serial("/dev/vbus"); long v_ = g ? (e) : -1; if (g) mbus_context_free(g); v_; })
    I("unconnected serial: mbus_disconnect", G(mbus_disconnect(g)))
    I("unconnected serial: mbus_send_frame", G(mbus_send_frame(g, f)))
    I("unconnected serial: mbus_recv_frame", G(mbus_recv_frame(g, f)))
    I("unconnected serial: mbus_serial_set_baudrate", G(mbus_serial_set_baudrate(g, 9600)))
    I("unconnected serial: mbus_send_request_frame", G(mbus_send_request_frame(g, 5)))
    I("unconnected serial: mbus_sendrecv_request", G(mbus_sendrecv_request(g, 5, f, 2)))
    I("unconnected serial: mbus_select_secondary_address", G(mbus_select_secondary_address(g, "0123456789ABCDEF")))
    I("unconnected serial: mbus_probe_secondary_address", G(mbus_probe_secondary_address(g, "0123456789ABCDEF", (char *)o)))
    I("unconnected serial: mbus_scan_2nd_address_range", G(mbus_scan_2nd_address_range(g, 0, (char[]){"FFFFFFFFFFFFFFFF"})))
    I("unconnected serial: mbus_set_primary_address", G(mbus_set_primary_address(g, 5, 6)))
#undef G
#define G(e) ({ mbus_handle *g = mbus_context_tcp("vhost", 1); long v_ = g ? (e) : -1; if (g) mbus_context_free(g); v_; })
    I("unconnected TCP: mbus_disconnect", G(mbus_disconnect(g)))
    I("unconnected TCP: mbus_send_frame", G(mbus_send_frame(g, f)))
    I("unconnected TCP: mbus_recv_frame", G(mbus_recv_frame(g, f)))
    I("unconnected TCP: mbus_send_request_frame", G(mbus_send_request_frame(g, 5)))
    I("unconnected TCP: mbus_sendrecv_request", G(mbus_sendrecv_request(g, 5, f, 2)))
    I("unconnected TCP: mbus_select_secondary_address", G(mbus_select_secondary_address(g, "0123456789ABCDEF")))
    I("unconnected TCP: mbus_probe_secondary_address", G(mbus_probe_secondary_address(g, "0123456789ABCDEF", (char *)o)))
    I("unconnected TCP: mbus_scan_2nd_address_range", G(mbus_scan_2nd_address_range(g, 0, (char[]){"FFFFFFFFFFFFFFFF"})))
    I("unconnected TCP: mbus_set_primary_address", G(mbus_set_primary_address(g, 5, 6)))
    V("mbus_serial_data_free(-)", mbus_serial_data_free(NULL))
    }
    free(u); free(q); free(s);
    (void)t;
    return r;
}
#undef I
#undef PT
#undef V
