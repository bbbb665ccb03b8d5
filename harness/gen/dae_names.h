// The vocabulary of COLLADA documents as the library knows it.
static const char* const daeElements[] = { "A_ONE", "BLINDNAME", "BLINDTYPEID", "COLLADA", "DOUBLE_SIDED", "IDREF_array", "Name_array", "RGB_ZERO", "accessor", "all", "alpha", "ambient", "ambient_shade", "amount", "angular", "angular_velocity", "animation", "animation_clip", "annotate", "aspect_ratio", "asset", "attachment", "author", "authoring_tool", "back", "bias", "bind", "bind_material", "bind_shape_matrix", "bind_texture_surface", "bind_vertex_input", "blend_mode", "blinn", "bool", "box", "bump", "bumpInterp", "camera", "capsule", "cast_shadows", "center_of_mass", "channel", "channels", "code", "color", "color_map_amount", "color_map_on", "comments", "compiler_options", "compiler_target", "constant", "constant_attenuation", "contributor", "control_vertices", "controller", "convex_mesh", "copyright", "coverageU", "coverageV", "created", "cylinder", "damping", "decay_start", "decay_type", "density", "depth", "depth_of_field", "dest", "dest_alpha", "dest_rgb", "diffuse", "directional", "disable_antialiasing", "disable_filtering", "displacement", "display_passes", "dither_strength", "double_sided", "dropoff", "duration", "dynamic", "dynamic_attributes", "dynamics", "effect", "ellipsoid", "emission", "emission_level", "emitter", "enabled", "end_time", "equation", "extra", "face", "face_map", "faceted", "fail", "falloff_angle", "falloff_exponent", "far_attenuation_end", "far_attenuation_start", "fast", "filter_color", "float", "float2", "float3", "float4", "float4x4", "float_array", "focal_depth", "force_field", "format", "format_hint", "frame_rate", "front", "func", "geometry", "h", "half", "half2", "half3", "half4", "half4x4", "half_extents", "height", "hollow", "horizontal_aperture", "image", "import", "include", "index_of_refraction", "inertia", "init_as_null", "init_as_target", "init_cube", "init_from", "init_planar", "init_volume", "input", "instance_animation", "instance_camera", "instance_controller", "instance_effect", "instance_emitter", "instance_force_field", "instance_geometry", "instance_light", "instance_material", "instance_node", "instance_physics_material", "instance_physics_model", "instance_physics_scene", "instance_rigid_body", "instance_rigid_constraint", "instance_visual_scene", "int", "int_array", "intensity", "interpenetrate", "joints", "keywords", "lambert", "layer", "lens_squeeze", "library_animation_clips", "library_animations", "library_cameras", "library_controllers", "library_effects", "library_emitters", "library_force_fields", "library_geometries", "library_images", "library_lights", "library_materials", "library_nodes", "library_physics_materials", "library_physics_models", "library_physics_scenes", "library_visual_scenes", "light", "limits", "linear", "linear_attenuation", "lines", "linestrips", "long_name", "lookat", "magfilter", "mask", "mass", "mass_frame", "material", "matrix", "max", "mesh", "min", "minfilter", "mipfilter", "mirrorU", "mirrorV", "mode", "modified", "morph", "motion_blur", "name", "near_attenuation_end", "near_attenuation_start", "newparam", "node", "noiseU", "noiseV", "normalized_weights", "note", "offsetU", "offsetV", "optics", "option", "order", "orthographic", "outer_cone", "overshoot", "p", "param", "pass", "penumbra_angle", "perspective", "ph", "phong", "physics_material", "physics_model", "physics_scene", "plane", "point", "points", "polygons", "polylist", "post_infinity", "pre_infinity", "precision", "primary", "projection", "quadratic_attenuation", "radius", "radius1", "radius2", "range", "ray_bias", "rays_per_sample", "ref", "ref_attachment", "reflective", "reflectivity", "repeatU", "repeatV", "rest_length", "revision", "rgb", "rigid_body", "rigid_constraint", "rot_limit_max", "rot_limit_min", "rotate", "rotateFrame", "rotateUV", "sample_bias", "sample_radius", "sampler", "sampler1D", "sampler2D", "sampler3D", "samplerCUBE", "scale", "scene", "segment_scale_compensate", "semantic", "setparam", "shader", "shape", "shininess", "short_name", "size", "skeleton", "skew", "skin", "source", "source_data", "spec_level", "specular", "sphere", "spline", "spot", "spring", "sprite", "src", "src_alpha", "src_rgb", "stagger", "start_time", "stiffness", "string", "subject", "surface", "swing_cone_and_twist", "tapered_capsule", "tapered_cylinder", "target", "target_default_dist", "target_distance", "target_value", "targets", "technique", "technique_common", "technique_hint", "texture", "texture_surface", "tile_size", "title", "total_passes", "trans_limit_max", "trans_limit_min", "translate", "translateFrameU", "translateFrameV", "transparency", "transparent", "triangles", "trifans", "trim_group", "tristrips", "type", "unit", "unknown", "up_axis", "use_far_attenuation", "use_near_attenuation", "use_original_location", "use_target_dist", "user_properties", "v", "value", "vcount", "velocity", "vertex_weights", "vertical_aperture", "vertices", "visibility", "visual_scene", "width", "wireframe", "wrapU", "wrapV", "wrap_p", "wrap_s", "wrap_t", "xfov", "xmag", "yfov", "ymag", "zfail", "zfar", "znear", "zpass" };
static const char* const daeAttributes[] = { "body", "bool", "closed", "closed_u", "closed_v", "color3", "constraint", "convex_hull_of", "count", "degree", "dynamic_attributes", "dynamic_friction", "end", "face", "float", "float2", "float3", "float4", "float4x4", "gravity", "id", "index", "input_semantic", "input_set", "int", "int2", "int3", "material", "meter", "method", "mip", "name", "offset", "opaque", "platform", "profile", "ref", "restitution", "semantic", "set", "sid", "slice", "source", "stage", "start", "static_friction", "stride", "string", "surface", "symbol", "target", "texcoord", "texture", "time_step", "type", "udegree", "url", "value", "vdegree", "version", "xmlns" };
static const char* const daeWords[] = { "1.4.1", "COMPRESSABLE", "CONTINUITY", "D", "DRIVER", "EASE_IN_OUT", "FCOLLADA", "FLOAT", "FRAGMENT", "FRAGMENTPROGRAM", "HIGH", "IDREF", "IMAGE", "INPUT", "INTERPOLATION", "INV_BIND_MATRIX", "IN_TANGENT", "JOINT", "KNOTS", "L", "LA", "LINEAR_STEPS", "LOW", "MAX3D", "MAYA", "MID", "MORPH_TARGET", "MORPH_WEIGHT", "NODE", "NORMALIZED3", "NORMALIZED4", "NV_import", "Name", "OUTPUT", "OUT_TANGENT", "POSITION", "RGB", "RGBA", "SINT", "SNORM", "SRGB_GAMMA", "TARGET", "TCB", "TEXTURE", "TIME", "UINT", "UNKNOWN", "UNKNOWN_IDREF", "UNORM", "VERTEX", "VERTEXPROGRAM", "WEIGHT", "WEIGHTS", "XYZ", "XYZW", "X_UP", "Y_UP", "Z_UP", "affect_list", "casts_shadows", "color_map", "d3dfx", "dgnode_type", "false", "film_fit", "film_fit_offset", "film_offsetX", "film_offsetY", "http://www.collada.org/2005/11/COLLADASchema", "image_sequence", "instances", "intensity_on", "is_illuminated", "kFile", "kPSDFile", "libraries", "light_affects_shadow", "light_map", "list_is_exclusive", "list_nodes", "mip_levels", "mipmap_generate", "points_list", "position", "proj_image", "shadow_attributes", "shadow_color", "shadow_color_mult", "shadow_map", "sky_mode", "skylight", "true", "type_map", "type_raytrace", "viewport_ratio" };
