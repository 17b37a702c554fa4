STUBS=[(a,b) for a,b in (x.split(':') for x in "calc_crc:stub_calc_crc skip_loop_body:stub_skip_loop_body read_bits:stub_read_bits write_bits:stub_write_bits vm_math_poly_eval:stub_poly_eval vm_math_poly_solve:stub_poly_solve vm_math_spline_eval:stub_spline_eval vm_math_spline_solve:stub_spline_solve".split())]
