import traceback
from .driver import Check, Setup, Broken
from . import lib_props, gen_props, data_props, user_props, match_props, ack_props, net_props, send_props, nats_props, opt_props, app_props, py_props, attr_props

PROPS = {
    'Y01': (py_props.Y01, '', ''), 'Y02': (py_props.Y02, '', ''), 'Y03': (py_props.Y03, '', ''), 'Y04': (py_props.Y04, '', ''),
    'T05': (app_props.T05, '', ''), 'T06': (app_props.T06, '', ''),
    'T01': (net_props.T01, '', ''), 'T02': (net_props.T02, '', ''), 'T03': (send_props.T03, '', ''), 'T04': (nats_props.T04, '', ''),
    'G12': (attr_props.G12, '', 'optional fields with attributes, fields of the second and third indicator word, probability and belief, packets without the current value'),
    'G09': (opt_props.G09, '', ''),
    'G10': (ack_props.G10, '', ''), 'G11': (ack_props.G11, '', ''),
    'P01': (lib_props.P01, 'every prior image and every argument of the setter types', 'floating arguments outside the representable range'),
    'P02': (lib_props.P02, 'every image; every in-range argument; fixed-point arguments that are exactly representable', 'none for fixed-size structures'),
    'P03': (lib_props.P03, 'every double in the representable range', 'arguments outside the representable range, NaN'),
    'P05': (lib_props.P05, '', 'longer lists, tag lists whose length differs from the channel list, list counts above the width of their subfield'),
    'P06': (lib_props.P06, '', 'texts that are not 32 hexadecimal digits'),
    'P07': (lib_props.P07, 'every prior image followed by two (thorough: three) arbitrary operations', ''),
    'P08': (lib_props.P08, 'no inputs: one path per structure, every output byte tracked for definedness', ''),
    'G01': (gen_props.G01, '', ''),
    'G02': (gen_props.G02, '', ''),
    'G03': (gen_props.G03, '', ''),
    'G05': (user_props.G05, '', ''),
    'G06': (match_props.G06, '', ''),
    'G07': (match_props.G07, '', ''),
    'G08': (match_props.G08, '', ''),
    'G04': (data_props.G04, '', ''),
    'P04': (lib_props.P04, 'every image of every fixed-size structure', ''),
}


def main(prop, tier, seed):
    fn, bounds, outside = PROPS[prop][:3]
    c = Check(prop, tier, seed)
    try:
        fn(c)
        if not getattr(c, 'no_runtime', False): c.run()
    except Broken as e:
        c.broken(str(e))
    except Setup as e:
        print('SETUP-FAILED %s' % e)
        c.problems.append('setup: ' + str(e)[:1500])
    except Exception:
        traceback.print_exc()
        c.problems.append('internal error')
    return c.finish(bounds=getattr(c, 'bounds', '') or bounds, outside=outside)
